SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Levels = {"info", "debug", "error"}
INVARIANTS Once Ordered Kept Force
PROPERTY AppendOnly
