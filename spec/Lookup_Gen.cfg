SPECIFICATION Spec
CONSTANTS N = 12
          Fakes = 4
          Finds = 2
          DeadOf10 = 3
          AtOnce = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
