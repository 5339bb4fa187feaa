SPECIFICATION LSpec
CONSTANTS Protos = {1, 2, 3}
          Failing = {3}
          Nested = {1}
          Threads = {1, 2}
          PerThread = 2
          Closes = TRUE
INVARIANTS PortAccounted AllBound FailsForAReason
PROPERTIES Frozen OnlyAdded Ends
CHECK_DEADLOCK FALSE
