SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Levels = {"info", "debug", "error"}
INVARIANTS Once Ordered Kept Force
PROPERTY AppendOnly
