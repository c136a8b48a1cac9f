SPECIFICATION Spec
CONSTANTS
  MaxSat = 4
  MaxSgn = 4
  MaxGrid = 8
INVARIANTS Same Distinct Inside
