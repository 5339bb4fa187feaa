SPECIFICATION TSpec
CONSTANTS Msgs = {}
          Workers = 1
          MaxBad = 0
VIEW Seen
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
