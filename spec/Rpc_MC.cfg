SPECIFICATION Spec
CONSTANTS Reqs = {1, 2}
          Conns = {1, 2}
          Msgs = {"m"}
          Attempts = 2
          MaxDup = 0
INVARIANTS OwnAnswer UsedOnce LateDropped OneResponse OwnNonce
CHECK_DEADLOCK FALSE
