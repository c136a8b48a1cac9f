SPECIFICATION Spec
CONSTANTS
  NConv = 2
  NMsg = 2
  MaxPrint = 3
INVARIANTS OwnHistory NoSharing
PROPERTIES Frozen Untouched Quiet
