SPECIFICATION TSpec
CONSTANTS Keys = {}
          Nonces = {}
          MaxSessions = 0
          MaxFrames = 0
INVARIANTS AllSealed
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
