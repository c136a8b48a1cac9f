---------------------------- MODULE MCControls -----------------------------
(* Every layering of up to MaxUpd user files over complete, incomplete (one or
   two settings missing), void and absent defaults.  The value of a setting is
   the number of the file that gave it.                                         *)
EXTENDS Controls, Json
CONSTANTS MaxUpd, MaxSet     \* user files; settings per user file from the second file on
VARIABLES files, st
vars == <<files, st>>
Keys == MKeys \cup JKeys
Give(S, i) == [kind |-> "text", d |-> [k \in S |-> i]]
NoFile == [kind |-> "none", d |-> Nothing]
VoidFile == [kind |-> "void", d |-> Nothing]
Base == {Give(Keys \ H, 1) : H \in {X \in SUBSET Keys : Cardinality(X) <= 2}} \cup {NoFile, VoidFile}
User(i) == {Give(S, i) : S \in {X \in SUBSET Keys : i <= 2 \/ Cardinality(X) <= MaxSet}} \cup {NoFile, VoidFile}

Init == files = <<>> /\ st = CtlInit
Next == /\ Len(files) <= MaxUpd
        /\ LET i == Len(files) + 1 IN
           \E f \in (IF i = 1 THEN Base ELSE User(i)) :
             /\ i > 2 => (Cardinality(DOMAIN files[2].d) <= MaxSet /\ Cardinality(DOMAIN files[1].d) >= Cardinality(Keys) - 1)
             /\ files' = Append(files, f)
             /\ st' = IF i = 1 THEN Defaults(st, f) ELSE Update(st, f)
        /\ PrintT("GEN|" \o ToJson([f |-> [i \in 1..Len(files') |-> [kind |-> files'[i].kind, k |-> SetToSeq(DOMAIN files'[i].d)]]]))
Spec == Init /\ [][Next]_vars
Folded == st = After(files)
LayersOk == LastWins(files)
(* user files never switch an offer on or off *)
Stable == [][Len(files) >= 1 => Offered(st') = Offered(st)]_vars
=============================================================================
