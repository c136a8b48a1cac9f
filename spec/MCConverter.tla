---------------------------- MODULE MCConverter ----------------------------
(* One conversion over abstract messages: every history of up to MaxLen stream
   elements, in every output mode and with every set of obstructed targets, is
   explored; the accounting and isolation properties are checked on the way and
   the histories of full length are printed for replay into the real code.

   A message is <<family, verdict>>; family "none" is a number nobody decodes.
   Element "gap" is junk between messages (counted once it separates two).     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxLen, Modes, Obstacles

Families == {"msm", "eph", "base"}
Messages == (Families \X {"ok", "bad"}) \cup { <<"none", "ok">> }
Elements == Messages \cup { <<"gap", "-">> }

MSupported(mode, fam) == fam = "msm" \/ (mode # "MARGO" /\ fam \in Families)
MClass(mode, m) == IF ~MSupported(mode, m[1]) THEN "foreign" ELSE IF m[2] = "ok" THEN "accept" ELSE "reject"
MBlocked(mode, m, O) == m[1] \in O
MF0 == [got |-> FALSE, dirty |-> FALSE, gaps |-> 0]
C == INSTANCE Converter WITH Class <- MClass, F0 <- MF0, Blocked <- MBlocked

VARIABLES mode, obst, hist, st
vars == <<mode, obst, hist, st>>

Init == mode \in Modes /\ obst \in Obstacles /\ hist = <<>> /\ st = C!ConvInit
Gap == /\ hist' = Append(hist, <<"gap", "-">>)
       /\ st' = [st EXCEPT !.f.dirty = TRUE]
Msg(m) == /\ hist' = Append(hist, m)
          /\ LET f == [got |-> TRUE, dirty |-> FALSE, gaps |-> st.f.gaps + (IF st.f.got /\ st.f.dirty THEN 1 ELSE 0)]
             IN st' = C!Message([st EXCEPT !.f = f], mode, m, obst)
Next == /\ Len(hist) < MaxLen
        /\ Gap \/ \E m \in Messages : Msg(m)
        /\ UNCHANGED <<mode, obst>>
        /\ (Len(hist') = MaxLen =>
              PrintT("GEN|" \o ToJson([mode |-> mode, obst |-> SetToSeq(obst), h |-> hist',
                                      st |-> C!Stats(st')])))
Spec == Init /\ [][Next]_vars

Only(h, P(_)) == SelectSeq(h, P)
Msgs == Only(hist, LAMBDA e : e[1] # "gap")
(* what is published depends on each message alone, in order of arrival *)
Isolation == st.done = Only(Msgs, LAMBDA m : MClass(mode, m) = "accept")
Accounting ==
  /\ st.att = Len(Only(Msgs, LAMBDA m : MSupported(mode, m[1])))
  /\ st.derr = Len(Only(Msgs, LAMBDA m : MClass(mode, m) = "reject"))
  /\ st.patt = st.att - st.derr
  /\ st.perr = Len(Only(Msgs, LAMBDA m : MClass(mode, m) = "accept" /\ m[1] \in obst))
  /\ st.f.gaps = Cardinality({i \in 2..Len(hist) : hist[i][1] = "gap" /\ hist[i-1][1] # "gap"
                                 /\ \E j \in (i+1)..Len(hist) : hist[j][1] # "gap"})
Verdict == C!CleanRun(st) = (st.f.gaps = 0 /\ st.att = Len(st.done) /\ \A i \in 1..Len(st.done) : st.done[i][1] \notin obst)
Monotone == [][/\ st'.att >= st.att /\ st'.derr >= st.derr /\ st'.patt >= st.patt /\ st'.perr >= st.perr
               /\ st'.f.gaps >= st.f.gaps /\ IsPrefix(st.done, st'.done)]_vars
=============================================================================
