SPECIFICATION GSpec
CONSTANTS Reqs = {1, 2, 3, 4, 5}
          NConns = 2
          Kinds = {}
          Depth = 14
          Waits = {TRUE, FALSE}
          Dups = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
