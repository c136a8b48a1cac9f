----------------------------- MODULE TControls -----------------------------
(* Validation of recorded uses of the controls manager: after every file the
   controls offered by the code are compared with the specification.            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Lits == {"R" \o ToString(i) : i \in 1..24}
C == INSTANCE Controls WITH MKeys <- {"hca", "lt", "shift"} \cup Lits, JKeys <- {"pretty", "hdr", "aux"}

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, i, st, bad
vars == <<r, i, st, bad>>
Run == Runs[r]
(* a recorded file lists the settings it gives as <<name, value>> pairs *)
File(f) == [kind |-> f.kind, d |-> [k \in {f.d[j][1] : j \in 1..Len(f.d)} |-> (CHOOSE x \in ToSet(f.d) : x[1] = k)[2]]]
Got(o, k) == LET x == SelectSeq(o, LAMBDA p : p[1] = k) IN IF Len(x) = 1 THEN x[1][2] ELSE -99999
ValBad(tag, want, o) == {<<"ctl." \o tag \o "." \o k, i>> : k \in {q \in DOMAIN want : Got(o, q) # want[q]}}
                        \cup (IF Len(o) # Cardinality(DOMAIN want) THEN { <<"ctl." \o tag \o ".set", i>> } ELSE {})
StepBad(s, o) ==
  (IF (o.box = 1) # C!Offered(s) THEN { <<"ctl.offered", i>> } ELSE {})
  \cup (IF (o.m = 1) # s.m THEN { <<"ctl.group.margo", i>> } ELSE {})
  \cup (IF (o.j = 1) # s.j THEN { <<"ctl.group.json", i>> } ELSE {})
  \cup (IF o.box = 1 /\ C!Offered(s) THEN ValBad("value", C!Effective(s), o.v) ELSE {})
  \cup (IF o.m = 1 /\ s.m THEN ValBad("margo", s.mv, o.mv) ELSE {})
  \cup (IF o.j = 1 /\ s.j THEN ValBad("json", s.jv, o.jv) ELSE {})
TInit == r \in 1..Len(Runs) /\ i = 1 /\ st = C!CtlInit /\ bad = {}
TStep == /\ i <= Len(Run.files)
         /\ LET f == File(Run.files[i])
                s2 == IF i = 1 THEN C!Defaults(st, f) ELSE C!Update(st, f)
            IN /\ st' = s2
               /\ bad' = bad \cup (IF Run.obs[i].exc = 1 THEN { <<"ctl.raise", i>> } ELSE StepBad(s2, Run.obs[i]))
         /\ i' = i + 1 /\ r' = r
TDone == /\ i = Len(Run.files) + 1 /\ i' = i + 1
         /\ PrintT("VERDICT|" \o Run.id \o "|" \o ToString(Len(Run.files)) \o "|" \o ToString(IF C!Offered(st) THEN 1 ELSE 0) \o "|" \o ToString(0) \o "|" \o ToString(0) \o "|" \o ToString(Cardinality(bad)))
         /\ \A b \in bad : PrintT("BAD|" \o Run.id \o "|" \o b[1] \o "|" \o ToString(b[2]))
         /\ UNCHANGED <<r, st, bad>>
TSpec == TInit /\ [][TStep \/ TDone]_vars
=============================================================================
