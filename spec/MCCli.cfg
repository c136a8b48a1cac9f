SPECIFICATION Spec
CONSTANTS
  MaxOpt = 2
INVARIANTS Folded LastWins Refuses
PROPERTIES Decided
