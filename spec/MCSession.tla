----------------------------- MODULE MCSession -----------------------------
(* Every session of up to MaxSrc arguments over the source shapes below, with
   and without leftovers of an earlier run, with and without usable controls.
   Complete sessions are printed for replay into the real command line tool.

     good noisy reject empty   readable files (clean / gaps / undecodable / no bytes)
     missing dir               no file behind the argument
     blocked                   a plain file occupies the output folder's path
     open read0 read1 int1     opening / first read / second read fails, interrupt at the second read
     again                     the same argument as the one before             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxSrc, Shapes, Stale, CtlStates
VARIABLES ctlOk, args, s
vars == <<ctlOk, args, s>>

MClean(src) == src.shape \in {"good", "empty"}
X == INSTANCE Session WITH Clean <- MClean

Kind(sh) == CASE sh = "missing" -> "none" [] sh = "dir" -> "dir" [] OTHER -> "file"
Faulty(sh) == sh \in {"open", "read0", "read1", "int1"}
Mk(sh, st, d) == [shape |-> sh, stale |-> st, kind |-> Kind(sh), dest |-> d, fault |-> Faulty(sh)]
Dest(k) == k
Disk0 == [d \in 1..MaxSrc |-> "none"]

Init == ctlOk \in CtlStates /\ args = <<>> /\ s = X!SessionInit(Disk0)
Fresh(sh, st) ==
  LET d == Len(args) + 1
      a == Mk(sh, st, d)
      s0 == [s EXCEPT !.disk[d] = IF sh = "blocked" THEN "plain" ELSE IF st THEN "stale" ELSE "none"]
  IN args' = Append(args, a) /\ s' = X!Handle(s0, ctlOk, a)
Again == /\ args # <<>>
         /\ LET a == args[Len(args)] IN args' = Append(args, a) /\ s' = X!Handle(s, ctlOk, a)
Next == /\ Len(args) < MaxSrc
        /\ UNCHANGED ctlOk
        /\ Again \/ \E sh \in Shapes, st \in Stale : Fresh(sh, st)
        /\ PrintT("GEN|" \o ToJson([ctl |-> ctlOk, a |-> [k \in 1..Len(args') |-> <<args'[k].shape, args'[k].stale, args'[k].dest>>]]))
Spec == Init /\ [][Next]_vars

N == Len(args)
AllHandled == s.i = N
(* the fate of a source is its own: no other source and no leftover influences it *)
Alone(a) == X!Handle(X!SessionInit([d \in 1..MaxSrc |-> IF d = a.dest /\ a.shape = "blocked" THEN "plain" ELSE "none"]), ctlOk, a)
Independent == \A k \in 1..N : LET d == args[k].dest IN s.log[d] = Alone(args[k]).log[d] /\ (s.disk[d] = "fresh") = (Alone(args[k]).disk[d] = "fresh")
NothingStale == \A k \in 1..N : s.disk[args[k].dest] = "stale" => args[k].kind # "file"
SkippedUntouched == \A k \in 1..N : args[k].kind # "file" => s.disk[args[k].dest] = (IF args[k].stale THEN "stale" ELSE "none")
=============================================================================
