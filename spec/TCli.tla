-------------------------------- MODULE TCli -------------------------------
(* Validation of recorded invocations with arbitrary command lines. *)
EXTENDS Judge, Cli, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, c, bad
vars == <<r, k, c, bad>>
Run == Runs[r]
TInit == r \in 1..Len(Runs) /\ k = 1 /\ c = CliInit /\ bad = {}
TWord == /\ k <= Len(Run.words)
         /\ c' = Word(c, Run.words[k]) /\ k' = k + 1 /\ UNCHANGED <<r, bad>>
Ctl(f) == CASE f.ini = "A" -> Run.ctlA [] f.ini = "B" -> Run.ctlB [] OTHER -> Run.ctl
(* the source: a file, or a folder holding one file per extension *)
Name(f) == IF Run.folder = 1 THEN f.ext ELSE Run.name
Done(f) == LET q == CHOOSE q \in ToSet(Run.src) : q.name = Name(f) IN Conversion(f.fmt, q.s, Len(q.s)).done
RunBad(f) ==
  (IF Run.code # 0 THEN { <<"cli.raise", Run.what>> } ELSE {})
  \cup (IF {<<q.name, q.mode>> : q \in ToSet(Run.made)} # { <<Name(f), f.fmt>> } THEN { <<"cli.made", "">> }
        ELSE {<<"cli.out." \o b[1], ToString(b[2])>> : b \in UNION {OutputBad(f.fmt, w, Ctl(f), {}, Run.made[1].files) : w \in {Done(f)}}})
Verdict ==
  LET f == Finish(c) IN
  (CASE f.end = "refused" -> (IF Run.code <= 0 THEN { <<"cli.refuse", Run.what>> } ELSE {})
                             \cup (IF Run.made # <<>> THEN { <<"cli.made", "refused">> } ELSE {})
     [] f.end = "told" -> (IF Run.exit # 1 \/ Run.code # 0 THEN { <<"cli.told", Run.what>> } ELSE {})
                          \cup (IF Run.said = 0 THEN { <<"cli.silent", "">> } ELSE {})
                          \cup (IF Run.made # <<>> THEN { <<"cli.made", "told">> } ELSE {})
     [] OTHER -> RunBad(f))
  \cup (IF Run.stray # <<>> THEN { <<"cli.stray", ToString(Run.stray)>> } ELSE {})
TDone == /\ k = Len(Run.words) + 1 /\ k' = k + 1
         /\ bad' = Verdict
         /\ PrintT("VERDICT|" \o Run.id \o "|" \o ToString(Len(Run.words)) \o "|" \o ToString(Len(Run.made)) \o "|0|0|" \o ToString(Cardinality(bad')))
         /\ \A b \in bad' : PrintT("BAD|" \o Run.id \o "|" \o b[1] \o "|" \o b[2])
         /\ UNCHANGED <<r, c>>
TSpec == TInit /\ [][TWord \/ TDone]_vars
=============================================================================
