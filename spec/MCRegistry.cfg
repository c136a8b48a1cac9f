SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Side = "dec"
INVARIANTS Complete Single Sums Typed
