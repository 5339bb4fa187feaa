SPECIFICATION MSpec
CONSTANTS Takes = TRUE
          Forwards = TRUE
          P = {1, 2}
          Msgs = {1, 2}
          MaxRuns = 3
INVARIANTS TakenOnce SentOnce NoEcho AllHave
PROPERTY BecomesQuiet
CHECK_DEADLOCK FALSE
