SPECIFICATION NSpec
CONSTANTS Nodes = {1, 2, 3}
          Pusher = 1
          Quits = {3}
INVARIANT AtMostOnce
PROPERTY Arrives
CHECK_DEADLOCK FALSE
