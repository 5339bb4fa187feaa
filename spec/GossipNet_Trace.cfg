SPECIFICATION TSpec
CONSTANTS Once = TRUE
          All = TRUE
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
