SPECIFICATION Spec
CONSTANTS Crowd = 20
          Others = 3
          Depth = 6
          DeadOf10 = 3
          Together = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
