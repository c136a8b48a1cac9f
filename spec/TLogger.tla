------------------------------ MODULE TLogger ------------------------------
(* Validation of recorded logger use.  Events: e ("init", "deinit", "log"), a
   (file / level), id, text, ok (1 returned, 0 refused), con: what appeared on
   the console, files: what was appended to each file ("?" if earlier content of
   it changed).                                                             *)
EXTENDS Logger, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, s, bad
vars == <<r, k, s, bad>>
Run == Runs[r]
Ev == Run.ev[k]
TInit == r \in 1..Len(Runs) /\ k = 1 /\ s = Off /\ bad = {}
IsEvent(e) == k <= Len(Run.ev) /\ Ev.e = e /\ k' = k + 1 /\ r' = r
Say(c, ok) == IF ok THEN {} ELSE { <<"log." \o c, ToString(k)>> }
Silent == Say("console", Ev.con = "") \cup Say("file", \A f \in 1..Len(Ev.files) : Ev.files[f] = "")
TIni == /\ IsEvent("init") /\ s' = DoInit(s, Ev.a, Ev.id)
        /\ bad' = bad \cup Say("setup", Ev.ok = (IF CanInit(s) THEN 1 ELSE 0)) \cup Silent
TDei == /\ IsEvent("deinit") /\ s' = DoDeinit(s) /\ bad' = bad \cup Say("release", Ev.ok = 1) \cup Silent
One(text, want) == IF want THEN text \in {l \o "\n" : l \in Lines(s, Ev.a, Ev.text)} ELSE text = ""
TLog == /\ IsEvent("log") /\ s' = s
        /\ bad' = bad \cup Say("raise", Ev.ok = 1) \cup Say("console", One(Ev.con, ConsoleGets(s, Ev.a)))
                  \cup Say("file", \A f \in 1..Len(Ev.files) : One(Ev.files[f], FileGets(s, Ev.a, f)))
TDone == /\ k = Len(Run.ev) + 1 /\ k' = k + 1
         /\ PrintT("VERDICT|" \o Run.id \o "|" \o ToString(Len(Run.ev)) \o "|0|0|0|" \o ToString(Cardinality(bad)))
         /\ \A b \in bad : PrintT("BAD|" \o Run.id \o "|" \o b[1] \o "|" \o b[2])
         /\ UNCHANGED <<r, s, bad>>
TSpec == TInit /\ [][TIni \/ TDei \/ TLog \/ TDone]_vars
=============================================================================
