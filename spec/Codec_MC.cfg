SPECIFICATION MSpec
CONSTANTS MaxCalls = 2
          Nodes = {1}
INVARIANTS OneToOne Survives
PROPERTIES Grows
CHECK_DEADLOCK FALSE
