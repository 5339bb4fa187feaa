SPECIFICATION Spec
CONSTANTS Nodes = {"A", "B"}
          Slots = {1, 2}
          NEKeys = 1
          Reflection = FALSE
INVARIANTS Agreement Secrecy Origin FreshSecrets
CHECK_DEADLOCK FALSE
