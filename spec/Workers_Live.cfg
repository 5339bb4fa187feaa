SPECIFICATION LSpec
CONSTANTS W = 2
          H = 1
          NConns = 2
          MaxMsgs = 3
          Holding = FALSE
PROPERTIES AllHandled ErrorsReported
CHECK_DEADLOCK FALSE
