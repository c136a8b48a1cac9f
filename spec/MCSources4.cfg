SPECIFICATION Spec
CONSTANTS
  MaxArgs = 4
  MaxTok = 4
  MaxFiles = 3
INVARIANTS OnlyOffered NamedAll AnswerRules
