SPECIFICATION Spec
CONSTANTS Threads = 1
          PerThread = 30
          Keys = 30
          Addrs = 6
          Fill = 30
          Mode = "table"
INVARIANT Emit
CHECK_DEADLOCK FALSE
