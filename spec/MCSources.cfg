SPECIFICATION Spec
CONSTANTS
  MaxArgs = 3
  MaxTok = 3
  MaxFiles = 3
INVARIANTS OnlyOffered NamedAll AnswerRules
