SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Side = "prn"
INVARIANTS Complete Single Sums Typed
