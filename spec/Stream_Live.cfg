SPECIFICATION Spec
CONSTANTS Msgs = {"m1", "m2"}
          Workers = 1
          MaxBad = 1
PROPERTIES Lossless
CHECK_DEADLOCK FALSE
