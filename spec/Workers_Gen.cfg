SPECIFICATION Spec
CONSTANTS NConns = 6
          Ws = {1, 2, 3}
          Hs = {1, 2, 3}
          Depth = 30
          Race = FALSE
          ErrWeight = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
