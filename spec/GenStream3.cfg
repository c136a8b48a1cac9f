SPECIFICATION Spec
CONSTANTS
  Tokens = {"good", "known", "max", "zero", "nest", "noise", "pre", "flip", "crc", "hide", "long", "trunc", "resv", "lone", "dbl"}
  Cuts = {"whole", "ones", "two", "k4096", "rand", "empty"}
  MaxTok = 3
