SPECIFICATION MSpec
CONSTANTS W = 3
          Cap = 2
          Self = 5
          Zero = 0
          Addrs = {1}
INVARIANTS NoDuplicates Bounded InPlace NoZero WalkIsExact ReadsOnly
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
