SPECIFICATION Spec
CONSTANTS NConns = 3
          NProtos = 2
          Depth = 20
          Race = FALSE
          Hows = {"half", "close", "reset", "garbage", "local", "handler", "nodeclose"}
          OverWeight = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
