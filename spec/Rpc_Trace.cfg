SPECIFICATION TSpec
CONSTANTS Reqs = {}
          Conns = {}
          Msgs = {}
          Attempts = 1
          MaxDup = 1
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
