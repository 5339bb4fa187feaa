SPECIFICATION Spec
CONSTANTS Msgs = {"m1", "m2", "m3"}
          Workers = 1
          MaxBad = 1
INVARIANTS ExactlyOnce InOrder Authentic ReceivedPrefix
CHECK_DEADLOCK FALSE
