SPECIFICATION TSpec
CONSTANTS Conns = {}
          Protos = {}
VIEW TView
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
