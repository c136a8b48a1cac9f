------------------------------- MODULE TPath -------------------------------
(* Validation of predicted product locations.  A row is
   [dir, stem, ext, mode, n, ofile, odir, olog, seen]: the source path is
   dir/stem.ext, the three paths are what the helper predicted; seen is the set
   of files found after a real conversion of one good message n ("" where none
   was made), with paths as the helper would spell them.                      *)
EXTENDS Catalog, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, bad
vars == <<r, bad>>
Under(d, f) == IF d = "" THEN f ELSE d \o "/" \o f
ODir(q) == Under(q.dir, q.stem \o "-" \o q.mode)
OLog(q) == ODir(q) \o "/" \o q.stem \o "-log.txt"
OFile(q) == ODir(q) \o "/" \o (IF q.n \in (EphSet \cup BaseSet \cup MsmSet) THEN JsonPath(q.n) ELSE "UNDEF/msg" \o ToString(q.n) \o ".json")
Say(c, ok, q) == IF ok THEN {} ELSE { <<"loc." \o c, q.mode \o " " \o ToString(q.n) \o " " \o q.stem \o q.ext>> }
InSeq(x, s) == \E k \in 1..Len(s) : s[k] = x
RowBad(q) ==
  Say("file", q.ofile = OFile(q), q) \cup Say("dir", q.odir = ODir(q), q) \cup Say("log", q.olog = OLog(q), q)
  \cup (IF q.ran = 0 THEN {} ELSE
        Say("made", ToJsonDoc(q.mode, q.n) = InSeq(OFile(q), q.seen), q)
        \cup Say("logged", InSeq(OLog(q), q.seen), q)
        \cup Say("inside", ~ToJsonDoc(q.mode, q.n) \/ \A k \in 1..Len(q.seen) : q.seen[k] \in {OFile(q), OLog(q)}, q))
TInit == r \in 1..Len(Runs) /\ bad = {<<"", "">>}
TNext == /\ bad = {<<"", "">>} /\ r' = r
         /\ bad' = UNION {RowBad(Runs[r].rows[k]) : k \in 1..Len(Runs[r].rows)}
         /\ PrintT("VERDICT|" \o Runs[r].id \o "|" \o ToString(Len(Runs[r].rows)) \o "|0|0|0|" \o ToString(Cardinality(bad')))
         /\ \A b \in bad' : PrintT("BAD|" \o Runs[r].id \o "|" \o b[1] \o "|" \o b[2])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
