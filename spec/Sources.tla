------------------------------ MODULE Sources ------------------------------
(* Which sources one invocation converts.
   args:  sequence of [kind |-> "file" | "none" | "dir", id]
   A lone folder opens a dialogue: the matching files (listed, indexes 1..n) are
   offered and the answer, a sequence of tokens, selects from them.  A token is
   an integer or Junk.                                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANT Junk
Dialogue(args) == Len(args) = 1 /\ args[1].kind = "dir"
Named(args) == LET L == SelectSeq(args, LAMBDA a : a.kind = "file") IN [i \in 1..Len(L) |-> L[i].id]
Asked(args, listed) == Dialogue(args) /\ listed # <<>>
Select(listed, answer) ==
  IF \E i \in 1..Len(answer) : answer[i] = Junk THEN <<>>
  ELSE LET L == SelectSeq(answer, LAMBDA x : x \in 1..Len(listed)) IN [i \in 1..Len(L) |-> listed[L[i]]]
Chosen(args, listed, answer) == IF Dialogue(args) THEN (IF listed = <<>> THEN <<>> ELSE Select(listed, answer)) ELSE Named(args)
=============================================================================
