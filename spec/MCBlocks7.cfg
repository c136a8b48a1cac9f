SPECIFICATION Spec
CONSTANTS
  MaxOps = 7
  MaxObj = 3
INVARIANTS Own Holds
PROPERTY Others
