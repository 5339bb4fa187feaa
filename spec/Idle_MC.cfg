SPECIFICATION MSpec
CONSTANTS T = 3
          Grace = 1
          End = 10
          Extend = TRUE
INVARIANTS InTime
PROPERTIES OnlyWhenIdle
CHECK_DEADLOCK FALSE
