SPECIFICATION Spec
CONSTANTS
  MaxSat = 4
  MaxSgn = 4
  MaxGrid = 12
INVARIANTS Same Distinct Inside
