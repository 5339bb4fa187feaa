SPECIFICATION MSpec
CONSTANTS A = 2
          MaxOut = 1
          MaxIn = 1
          Attempts = 2
          NCalls = 2
          NIn = 0
          NCtx = 1
          NDrop = 1
          NMode = 1
          Kinds = {"ping", "req"}
          Modes = {"up", "stall", "fail"}
INVARIANTS OnePerAddress Bounded ListedOnce LeastRecentlyUsedLast Paired DialsBounded PingFailedOnce ClosedMeansEnded QuietIsRest
CHECK_DEADLOCK FALSE
