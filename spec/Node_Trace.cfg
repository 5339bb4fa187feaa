SPECIFICATION TSpec
CONSTANTS Deviation = FALSE
          Budget = 60000
VIEW TView
INVARIANTS OnePerAddress Bounded ListedOnce
CONSTRAINT Explored
POSTCONDITION Judged
CHECK_DEADLOCK FALSE
