------------------------------ MODULE TRepro -------------------------------
(* The products of a conversion are a function of the bytes, the mode and the
   controls.  A record holds one source converted several times under different
   circumstances (library with some chunking, command line in the same process
   after other work, command line in processes of their own with other hash
   seeds and working directories).  The first product seen becomes the value of
   the function; every later one has to agree byte for byte, and the first one
   has to be the product the specification prescribes.                          *)
EXTENDS Judge, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, val, bad
vars == <<r, k, val, bad>>
Run == Runs[r]
None == "none"
TInit == r \in 1..Len(Runs) /\ k = 1 /\ val = <<>> /\ bad = {}
Paths(T) == {T[j][1] : j \in 1..Len(T)}
Sum(T, p) == T[SelectInSeq(T, LAMBDA x : x[1] = p)][2]
TreeBad(T, how) ==
  {<<"repro.files", how \o ":" \o p>> : p \in (Paths(T) \ Paths(val)) \cup (Paths(val) \ Paths(T))}
  \cup {<<"repro.bytes", how \o ":" \o p>> : p \in {q \in Paths(T) \cap Paths(val) : Sum(T, q) # Sum(val, q)}}
TStep == /\ k <= Len(Run.runs)
         /\ LET x == Run.runs[k] IN
            /\ val' = IF k = 1 THEN x.tree ELSE val
            /\ bad' = bad \cup (IF x.ok # 1 THEN { <<"repro.end", x.how>> } ELSE {})
                          \cup (IF k = 1 THEN {} ELSE TreeBad(x.tree, x.how))
         /\ k' = k + 1 /\ r' = r
Want == Conversion(Run.mode, Run.s, Len(Run.s)).done
TDone == /\ k = Len(Run.runs) + 1 /\ k' = k + 1
         /\ bad' = bad \cup {<<"repro.out." \o b[1], ToString(b[2])>> : b \in UNION {OutputBad(Run.mode, w, Run.ctl, {}, Run.files) : w \in {Want}}}
         /\ PrintT("VERDICT|" \o Run.id \o "|" \o ToString(Len(Run.runs)) \o "|" \o ToString(Len(val)) \o "|0|0|" \o ToString(Cardinality(bad')))
         /\ \A b \in bad' : PrintT("BAD|" \o Run.id \o "|" \o b[1] \o "|" \o b[2])
         /\ UNCHANGED <<r, val>>
TSpec == TInit /\ [][TStep \/ TDone]_vars
=============================================================================
