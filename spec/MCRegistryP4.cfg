SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Side = "prn"
INVARIANTS Complete Single Sums Typed
