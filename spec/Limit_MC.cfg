SPECIFICATION MSpec
CONSTANTS Conns = {1, 2}
          MaxFrames = 2
INVARIANTS Inv AllHandled ClosedForAReason
PROPERTIES Alone
CHECK_DEADLOCK FALSE
