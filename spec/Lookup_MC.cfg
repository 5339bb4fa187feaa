SPECIFICATION MSpec
CONSTANTS Peers = {1, 6, 11}
          Self = 4
          Targets = {6, 12}
          MaxN = 2
          Cap = 2
INVARIANT Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
