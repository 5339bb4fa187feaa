SPECIFICATION TSpec
CONSTANTS Hostiles = {}
          Workers = {}
          Queue = 1
          Deadlines = TRUE
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
