SPECIFICATION GSpec
CONSTANTS MaxMsgs = 3
          MaxTries = 5
          Handlers = 3
          NConns = 2
          Hows = {"inline", "go", "later", "race"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
