SPECIFICATION TSpec
CONSTANTS Msgs = {}
          Workers = 1
          MaxBad = 1
INVARIANTS Authentic
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
