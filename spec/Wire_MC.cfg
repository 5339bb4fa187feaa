SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4, 5, 6}
          Nonces = {1, 2, 3, 4}
          MaxSessions = 2
          MaxFrames = 3
INVARIANTS NonceOnce FreshKeys AllSealed
CHECK_DEADLOCK FALSE
