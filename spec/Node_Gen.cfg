SPECIFICATION GSpec
CONSTANTS A = 3
          MaxOuts = {2}
          MaxIns = {2}
          AttemptsSet = {1, 2, 3}
          ListensSet = {TRUE}
          Kinds = {"ping", "send", "req"}
          Modes0 = {"up", "stall", "fail", "fail1", "fail2", "refuse"}
          Modes = {"up", "stall", "fail"}
          NCalls = 6
          NIn = 0
          NClose = 0
          Depth = 20
          Race = FALSE
          Equal = TRUE
          Weights <- W
INVARIANTS Emit OnePerAddress Bounded ListedOnce LeastRecentlyUsedLast Paired DialsBounded PingFailedOnce ClosedMeansEnded
CHECK_DEADLOCK FALSE
