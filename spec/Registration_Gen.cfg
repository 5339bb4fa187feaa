SPECIFICATION Spec
CONSTANTS Threads = 1
          PerThread = 4
          Race = FALSE
          Closes = FALSE
          Fails = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
