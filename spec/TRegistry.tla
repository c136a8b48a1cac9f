----------------------------- MODULE TRegistry -----------------------------
(* Validation of recorded registrations and dispatches. *)
EXTENDS Registry, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, t, bad
vars == <<r, k, t, bad>>
Run == Runs[r]
Ev == Run.ev[k]
S == Run.subs
TInit == r \in 1..Len(Runs) /\ k = 1 /\ bad = {} /\ t = IF Runs[r].side = "dec" THEN DecTop0 ELSE PrnTop0
IsEvent(e) == k <= Len(Run.ev) /\ Ev.e = e /\ k' = k + 1 /\ r' = r
Say(c, ok) == IF ok THEN {} ELSE { <<"reg." \o c, ToString(k)>> }
Stat == Say("stat", <<t'.att, t'.err>> = Ev.st)
        \cup (IF Run.side = "prn" THEN Say("ready", Ev.rd = <<IF t'.fmt THEN 1 ELSE 0, IF Ready(t') THEN 1 ELSE 0>>) ELSE {})
TRegD == /\ IsEvent("reg") /\ Run.side = "dec"
         /\ t' = AddDec(t, S, Ev.a)
         /\ bad' = bad \cup Say("refuse", Ev.ok = (IF DecOk(S[Ev.a]) THEN 1 ELSE 0)) \cup Stat
TRegP == /\ IsEvent("reg") /\ Run.side = "prn"
         /\ t' = AddPrn(t, S, Ev.a)
         /\ bad' = bad \cup Say("refuse", Ev.ok = (IF PrnOk(t, S[Ev.a]) THEN 1 ELSE 0)) \cup Stat
TDec == /\ IsEvent("dec")
        /\ LET x == DoDec(t, S, Ev.a)
           IN /\ t' = x[1]
              /\ bad' = bad \cup Say("called", Ev.called = (IF x[2] = 0 THEN <<>> ELSE <<x[2]>>)) \cup Say("result", Ev.ret = x[3]) \cup Stat
TFmt == /\ IsEvent("fmt") /\ t' = SetFmt(t, Ev.a) /\ bad' = bad \cup Stat
TPrn == /\ IsEvent("prn")
        /\ LET Q == Takers(t, S, Ev.a)
           IN IF Q = {} THEN t' = t /\ bad' = bad \cup Say("called", Ev.called = <<>>) \cup Stat
              ELSE IF Len(Ev.called) = 1 /\ Ev.called[1] \in Q
                   THEN t' = DoPrn(t, S, Ev.called[1]) /\ bad' = bad \cup Stat
                   ELSE t' = DoPrn(t, S, CHOOSE q \in Q : TRUE) /\ bad' = bad \cup { <<"reg.called", ToString(k)>> }
TClose == /\ IsEvent("close") /\ t' = t
          /\ bad' = bad \cup Say("closed", Len(Ev.called) = Cardinality(t.reg) /\ ToSet(Ev.called) = t.reg) \cup Stat
TExc == /\ IsEvent("exc") /\ t' = t /\ bad' = bad \cup { <<"reg.raise." \o Ev.w, ToString(k)>> }
TDone == /\ k = Len(Run.ev) + 1 /\ k' = k + 1
         /\ PrintT("VERDICT|" \o Run.id \o "|" \o ToString(Len(Run.ev)) \o "|" \o ToString(t.att) \o "|0|0|" \o ToString(Cardinality(bad)))
         /\ \A b \in bad : PrintT("BAD|" \o Run.id \o "|" \o b[1] \o "|" \o b[2])
         /\ UNCHANGED <<r, t, bad>>
TSpec == TInit /\ [][TRegD \/ TRegP \/ TDec \/ TFmt \/ TPrn \/ TClose \/ TExc \/ TDone]_vars
=============================================================================
