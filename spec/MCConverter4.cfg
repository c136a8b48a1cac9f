SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Modes = {"MARGO", "JSON", "JSON-B", "JARGO"}
  Obstacles = {{}, {"msm"}, {"eph"}, {"base"}, {"msm", "eph", "base"}}
INVARIANTS Isolation Accounting Verdict
PROPERTIES Monotone
