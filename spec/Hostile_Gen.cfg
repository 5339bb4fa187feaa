SPECIFICATION Spec
CONSTANTS N = 3
          Depth = 25
          Workers = {1, 2, 4}
          Each = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
