------------------------------- MODULE Blocks ------------------------------
(* Data blocks in memory.  State: the sequence of blocks made so far, each with
   its class and what it holds.  A block is made empty, may be written, and (for
   the bare observables) may be cleared; no operation on one block may show in
   another one.                                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
BareClasses == {"BareObservablesMSM123", "BareObservablesMSM4567", "Attributes"}
Clearable(c) == c \in BareClasses
New(s, c, empty) == Append(s, [c |-> c, v |-> empty])
Write(s, i, v) == [s EXCEPT ![i].v = v]
Clear(s, i, empty) == [s EXCEPT ![i].v = empty]

(* ---- an empty value, in the encoding of Compare: zeros, empty texts, nothing else *)
RECURSIVE Blank(_)
Blank(x) == CASE x.t = "i" -> x.m = <<>>
              [] x.t = "f" -> x.m = <<>>
              [] x.t = "b" -> x.v = FALSE
              [] x.t = "s" -> x.u = <<>>
              [] x.t = "a" -> \A i \in 1..Len(x.v) : Blank(x.v[i])
              [] x.t = "o" -> \A i \in 1..Len(x.v) : Blank(x.v[i])
              [] x.t = "c" -> \A i \in 1..Len(x.v) : Blank(x.v[i])
              [] OTHER -> FALSE
(* scaled observables carry "unknown" markers in their auxiliary part from the start *)
MustBeBlank(c) == c # "ObservablesMSM"

(* ---- derived readings of a bare block: epoch, GLONASS day, kind of MSM *)
Epoch(g, t) == IF g = "R" THEN t % (2^27) ELSE t
Day(g, t) == IF g = "R" THEN (t \div (2^27)) % 8 ELSE 0
Kinds(sub) == [k \in 1..7 |-> IF sub = "MSM" \o ToString(k) THEN 1 ELSE 0]
=============================================================================
