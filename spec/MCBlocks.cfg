SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxObj = 3
INVARIANTS Own Holds
PROPERTY Others
