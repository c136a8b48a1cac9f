SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Side = "dec"
INVARIANTS Complete Single Sums Typed
