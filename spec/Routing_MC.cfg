SPECIFICATION MSpec
CONSTANTS W = 3
          Cap = 2
          Self = 0
          Zero = 9
          Keys = {4, 5, 6, 7}
          Dead = {5, 6}
          MaxRuns = 4
INVARIANTS EventsAgree Bounded
PROPERTIES LiveStay LeftOut AllEnd
CHECK_DEADLOCK FALSE
