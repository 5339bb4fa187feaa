SPECIFICATION GSpec
CONSTANTS Msgs = {}
          Workers = 1
          MaxBad = 1
          Depth = 3
          Kinds = {"flip", "swap", "trunc", "front", "extend", "nonce", "other", "clear", "clearlong", "tiny", "random", "empty", "header"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
