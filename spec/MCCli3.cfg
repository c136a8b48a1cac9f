SPECIFICATION Spec
CONSTANTS
  MaxOpt = 3
INVARIANTS Folded LastWins Refuses
PROPERTIES Decided
