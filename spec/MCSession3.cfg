SPECIFICATION Spec
CONSTANTS
  MaxSrc = 3
  Shapes = {"good", "noisy", "reject", "empty", "missing", "dir", "blocked", "open", "read0", "read1", "int1"}
  Stale = {TRUE, FALSE}
  CtlStates = {TRUE, FALSE}
INVARIANTS AllHandled Independent NothingStale SkippedUntouched
