SPECIFICATION Spec
CONSTANTS Reqs = {1, 2}
          Conns = {1, 2}
          Msgs = {}
          Attempts = 1
          MaxDup = 0
INVARIANTS OwnAnswer UsedOnce LateDropped OneResponse OwnNonce
PROPERTIES Ends Answered
CHECK_DEADLOCK FALSE
