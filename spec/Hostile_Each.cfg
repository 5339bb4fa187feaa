SPECIFICATION EachSpec
CONSTANTS N = 1
          Depth = 25
          Workers = {1}
          Each = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
