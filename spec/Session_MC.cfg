SPECIFICATION Spec
CONSTANTS Roles = {"dial", "accept"}
          ReflectionAccepted = FALSE
INVARIANTS TypeOK Authentic NoImpersonation NoEarlyMessage PeerOnlyWhenUp
CHECK_DEADLOCK FALSE
