SPECIFICATION HSpec
CONSTANTS Hostiles = {"h1", "h2"}
          Workers = {1}
          Queue = 2
          Deadlines = TRUE
INVARIANTS TypeOk Listed
PROPERTIES Served Cleared
CHECK_DEADLOCK FALSE
