SPECIFICATION Spec
CONSTANTS
  NConv = 2
  NMsg = 2
  MaxPrint = 2
INVARIANTS OwnHistory NoSharing
PROPERTIES Frozen Untouched Quiet
