------------------------------ MODULE TCompare -----------------------------
(* Validation of recorded comparisons and copies of data objects.
   op "cmp":   a, b, tol, r (1 true, 0 false, 2 raised)
   op "copy":  how "copy" | "deepcopy"; a original, c the copy, r: copy compares
               equal to the original; after a top level field of the copy was set
               and a nested value of it changed: a1 original, c1 copy; fields of
               the nested change: top (index), nest (index, 0 if there is none)
   op "shape": items (field names), len                                         *)
EXTENDS Compare, FiniteSets, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, bad, done
vars == <<r, bad, done>>
Run == Runs[r]
Bad(cond, what) == IF cond THEN {} ELSE { <<"cmp." \o what, r>> }
Exact(a, b) == a = b
Judge ==
  CASE Run.op = "cmp" -> Bad(Run.r = (IF Same(Run.a, Run.b, Run.tol) THEN 1 ELSE 0), Run.tag)
    [] Run.op = "copy" ->
         Bad(Run.r = 1 /\ Exact(Run.a, Run.c), Run.how \o ".equal")
         \cup Bad(Run.a1.v[Run.top] = Run.a.v[Run.top], Run.how \o ".independent")
         \cup Bad(\A k \in 1..Len(Run.a.v) : k = Run.nest \/ Run.a1.v[k] = Run.a.v[k], Run.how \o ".others")
         \cup Bad(Run.nest = 0 \/ Run.how = "copy" \/ Run.a1.v[Run.nest] = Run.a.v[Run.nest], Run.how \o ".nested")
    [] Run.op = "shape" -> Bad(Run.items = Run.a.k /\ Run.vals = Run.a.v, "items") \cup Bad(Run.len = Len(Run.a.k), "len")
TInit == r \in 1..Len(Runs) /\ bad = {} /\ done = FALSE
TDone == /\ ~done /\ done' = TRUE /\ r' = r
         /\ bad' = Judge
         /\ PrintT("VERDICT|" \o Run.id \o "|" \o ToString(1) \o "|" \o ToString(1) \o "|" \o ToString(0) \o "|" \o ToString(0) \o "|" \o ToString(Cardinality(bad')))
         /\ \A b \in bad' : PrintT("BAD|" \o Run.id \o "|" \o b[1] \o "|" \o ToString(b[2]))
TSpec == TInit /\ [][TDone]_vars
=============================================================================
