SPECIFICATION MSpec
CONSTANTS Conns = {1}
          Protos = {1, 2}
          MaxPush = 2
          MaxSend = 1
INVARIANTS Once Paired NoHandshake
PROPERTY DisLast
CHECK_DEADLOCK FALSE
