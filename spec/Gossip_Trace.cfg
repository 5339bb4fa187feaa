SPECIFICATION TSpec
CONSTANTS Takes = TRUE
          Forwards = TRUE
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
