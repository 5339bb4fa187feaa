SPECIFICATION Spec
CONSTANTS Peers = 4
          Mute = 3
          Msgs = 4
          Depth = 12
          Burst = 0
          Flips = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
