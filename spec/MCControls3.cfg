SPECIFICATION Spec
CONSTANTS
  MKeys = {"hca", "lt", "shift", "lit"}
  JKeys = {"pretty", "hdr", "aux"}
  MaxUpd = 3
  MaxSet = 1
INVARIANTS Folded LayersOk
PROPERTIES Stable
