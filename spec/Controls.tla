------------------------------ MODULE Controls ------------------------------
(* Layered configuration.  A file is [kind |-> "none" | "void" | "text",
   d |-> function from the settings it gives to their values] ("none": no such
   file, "void": nothing in it).  The first file holds the defaults; later ones
   may override any subset.  State: everything read so far, which of the two
   groups of settings was complete in the defaults, and the effective values.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS MKeys, JKeys       \* settings of the MARGO group / of the JSON group

Nothing == [k \in {} |-> 0]
Over(new, old) == new @@ old
CtlInit == [seen |-> Nothing, live |-> FALSE, m |-> FALSE, j |-> FALSE, mv |-> Nothing, jv |-> Nothing]
Take(vals, keys) == [k \in keys |-> vals[k]]
Defaults(st, file) ==
  IF file.kind # "text" THEN st
  ELSE LET all == Over(file.d, st.seen)
           m == MKeys \subseteq DOMAIN all
           j == JKeys \subseteq DOMAIN all
       IN [seen |-> all, live |-> TRUE, m |-> m, j |-> j,
           mv |-> IF m THEN Take(all, MKeys) ELSE Nothing, jv |-> IF j THEN Take(all, JKeys) ELSE Nothing]
Update(st, file) ==
  IF ~st.live \/ file.kind # "text" THEN st
  ELSE LET all == Over(file.d, st.seen)
       IN [st EXCEPT !.seen = all, !.mv = IF st.m THEN Take(all, MKeys) ELSE @, !.jv = IF st.j THEN Take(all, JKeys) ELSE @]
(* controls are offered only as a whole *)
Offered(st) == st.m /\ st.j
Effective(st) == Over(st.mv, st.jv)
After(files) == FoldLeft(LAMBDA s, i : IF i = 1 THEN Defaults(s, files[1]) ELSE Update(s, files[i]), CtlInit, [i \in 1..Len(files) |-> i])

(* ---- the same contract read declaratively: the last file that gives a setting wins *)
LastWriter(files, k) ==
  LET W == {i \in 1..Len(files) : files[i].kind = "text" /\ k \in DOMAIN files[i].d}
  IN files[CHOOSE i \in W : \A j \in W : j <= i].d[k]
LastWins(files) ==
  LET st == After(files) IN
  /\ Offered(st) = (Len(files) > 0 /\ files[1].kind = "text" /\ (MKeys \cup JKeys) \subseteq DOMAIN files[1].d)
  /\ Offered(st) => \A k \in MKeys \cup JKeys : Effective(st)[k] = LastWriter(files, k)
=============================================================================
