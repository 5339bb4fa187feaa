SPECIFICATION Spec
CONSTANTS Depth = 10
          Ts = {0, 800}
          Stages = {"up"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
