------------------------------ MODULE MCFramer ------------------------------
(* Exhaustive check of the framing design on a toy transport with the shape of
   RTCM 3: symbol 2 is the preamble, the next symbol must be 0 or 1 (reserved
   bits + length), then that many payload symbols and a mod-3 checksum.  Every
   stream up to MaxLen symbols and every way of cutting it into chunks (empty
   ones included) is explored.                                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS MaxLen, MaxChunk
Sym == 0..2

TCand(S, av, p) == S[p + 1] = 2 /\ (p + 1 < av => S[p + 2] < 2)
TLen(S, p) == S[p + 2] + 3
TSum(s) == FoldLeft(LAMBDA a, b : (a + b) % 3, 0, s)
TOk(S, p, n) == TSum(SubSeq(S, p + 1, p + n)) = 0
F == INSTANCE Framer WITH Candidate <- TCand, MinLen <- 3, FrameLen <- TLen, CheckOk <- TOk

VARIABLES S, f, out
vars == <<S, f, out>>
Init == S = <<>> /\ f = F!FramerInit /\ out = <<>>
Chunks == UNION {[1..k -> Sym] : k \in 0..MaxChunk}
Feed(c) == /\ Len(S) + Len(c) <= MaxLen
           /\ S' = S \o c
           /\ LET x == F!Feed(S', Len(S'), f) IN f' = x.f /\ out' = out \o x.out
Next == \E c \in Chunks : Feed(c)
Spec == Init /\ [][Next]_vars

N == Len(S)
Sound == F!Sound(S, N, out)
Complete == F!Complete(S, N, out)
GapsExact == f.gaps = F!GapCount(out)
Bounded == f.pos <= N /\ \A k \in 1..Len(out) : out[k][1] + out[k][2] <= f.pos
(* whatever the cutting, the result is that of one single chunk *)
ChunkFree == LET x == F!Feed(S, N, F!FramerInit) IN x.out = out /\ x.f = f
(* nothing that could be delivered is held back *)
Prompt == F!Feed(S, N, f).out = <<>>
Append_ == [][\E k \in 0..Len(out') : SubSeq(out', 1, Len(out)) = out]_vars
=============================================================================
