SPECIFICATION Spec
CONSTANTS Threads = 1
          PerThread = 30
          Same = FALSE
          NTypes = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
