SPECIFICATION GSpec
CONSTANTS Roles = {"dial", "accept"}
          ReflectionAccepted = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
