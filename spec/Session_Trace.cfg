SPECIFICATION TSpec
CONSTANTS Roles = {"dial", "accept"}
          ReflectionAccepted = FALSE
INVARIANTS TypeOK Authentic NoImpersonation NoEarlyMessage PeerOnlyWhenUp
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
