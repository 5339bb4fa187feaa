SPECIFICATION SSpec
CONSTANTS Takes = TRUE
          Forwards = TRUE
          P = {1, 2, 3}
          MaxRuns = 6
CONSTRAINT Go
INVARIANT Emit
CHECK_DEADLOCK FALSE
