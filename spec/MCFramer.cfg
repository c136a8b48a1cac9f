CONSTANTS MaxLen = 8
          MaxChunk = 3
SPECIFICATION Spec
INVARIANTS Sound Complete GapsExact Bounded ChunkFree Prompt
PROPERTY Append_
CHECK_DEADLOCK FALSE
