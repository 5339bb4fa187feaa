SPECIFICATION MSpec
CONSTANTS W = 2
          H = 2
          NConns = 2
          MaxMsgs = 3
          Holding = FALSE
INVARIANTS UpToTheError OwnErrorsOnly Capacity
CHECK_DEADLOCK FALSE
