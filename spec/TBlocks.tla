------------------------------ MODULE TBlocks ------------------------------
(* Validation of recorded uses of data blocks.  Events: e ("new", "fill",
   "clear"), a (class / block index), w (what was written), all (what every block
   holds afterwards), read ([t, d, k, g, h] derived readings per bare block).   *)
EXTENDS Blocks, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, s, seen, bad
vars == <<r, k, s, seen, bad>>
Run == Runs[r]
Ev == Run.ev[k]
TInit == r \in 1..Len(Runs) /\ k = 1 /\ s = <<>> /\ bad = {} /\ seen = [c \in {} |-> 0]
IsEvent(e) == k <= Len(Run.ev) /\ Ev.e = e /\ k' = k + 1 /\ r' = r
Say(c, ok) == IF ok THEN {} ELSE { <<"blk." \o c, ToString(k)>> }
Held(what) == Len(Ev.all) = Len(s') /\ \A i \in 1..Len(s') : (i \in what) = FALSE \/ Ev.all[i] = s'[i].v
Derived == \A i \in 1..Len(Ev.read) : LET q == Ev.read[i] IN q.t = Epoch(q.g, q.h) /\ q.d = Day(q.g, q.h) /\ q.k = Kinds(q.s)
Common(i) == Say("own", Held({i})) \cup Say("others", Held((1..Len(s')) \ {i})) \cup Say("read", Derived)
TNew == /\ IsEvent("new")
        /\ LET v == Ev.all[Len(Ev.all)]
               first == IF Ev.a \in DOMAIN seen THEN seen[Ev.a] ELSE v
           IN /\ s' = New(s, Ev.a, first)
              /\ seen' = (Ev.a :> first) @@ seen
              /\ bad' = bad \cup Common(Len(s')) \cup Say("empty", MustBeBlank(Ev.a) => Blank(first))
TFill == /\ IsEvent("fill") /\ seen' = seen /\ s' = Write(s, Ev.a, Ev.w) /\ bad' = bad \cup Common(Ev.a)
TClear == /\ IsEvent("clear") /\ seen' = seen /\ s' = Clear(s, Ev.a, seen[s[Ev.a].c]) /\ bad' = bad \cup Common(Ev.a)
TExc == /\ IsEvent("exc") /\ UNCHANGED <<s, seen>> /\ bad' = bad \cup { <<"blk.raise." \o Ev.w, ToString(k)>> }
TDone == /\ k = Len(Run.ev) + 1 /\ k' = k + 1
         /\ PrintT("VERDICT|" \o Run.id \o "|" \o ToString(Len(Run.ev)) \o "|" \o ToString(Len(s)) \o "|0|0|" \o ToString(Cardinality(bad)))
         /\ \A b \in bad : PrintT("BAD|" \o Run.id \o "|" \o b[1] \o "|" \o b[2])
         /\ UNCHANGED <<r, s, seen, bad>>
TSpec == TInit /\ [][TNew \/ TFill \/ TClear \/ TExc \/ TDone]_vars
=============================================================================
