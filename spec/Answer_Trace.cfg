SPECIFICATION TSpec
CONSTANTS Reqs = {}
          Conns = {}
          Msgs = {}
          Attempts = 1
          MaxDup = 1
INVARIANTS OneEach
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
