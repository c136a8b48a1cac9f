------------------------------ MODULE TSources -----------------------------
(* Validation of recorded invocations against Sources.  A run lists
     args     [kind, id]                what each argument denotes
     match    ids of the files in the folder with the requested extension (a set)
     listing  <<index, id>> as shown on the console, in order
     asked    number of prompts;   answer: tokens typed (99: not an integer)
     opened   ids of the sources opened, in order
     folders  ids of the sources for which an output folder exists afterwards
     logs     ids whose log holds a verdict                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
S == INSTANCE Sources WITH Junk <- 99
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, bad, done
vars == <<r, bad, done>>
Run == Runs[r]
Bad(cond, what) == IF cond THEN {} ELSE { <<"src." \o what, r>> }
Judge ==
  LET dlg == S!Dialogue(Run.args)
      listed == [k \in 1..Len(Run.listing) |-> Run.listing[k][2]]
      want == S!Chosen(Run.args, listed, Run.answer)
  IN Bad(Run.raised = 0, "raise")
     \cup (IF dlg
           THEN Bad(\A k \in 1..Len(Run.listing) : Run.listing[k][1] = k, "index")
                \cup Bad(ToSet(listed) = ToSet(Run.match) /\ Len(listed) = Cardinality(ToSet(Run.match)), "listing")
                \cup Bad(Run.asked = (IF Run.match = <<>> THEN 0 ELSE 1), "asked")
           ELSE Bad(Run.asked = 0, "asked") \cup Bad(Run.listing = <<>>, "listing"))
     \cup Bad(Run.opened = want, "order")
     \cup Bad(ToSet(Run.folders) = ToSet(want), "folders")
     \cup Bad(ToSet(Run.logs) = ToSet(want), "logs")
     \cup Bad(Run.stray = <<>>, "stray")
TInit == r \in 1..Len(Runs) /\ bad = {} /\ done = FALSE
TDone == /\ ~done /\ done' = TRUE /\ r' = r
         /\ bad' = Judge
         /\ PrintT("VERDICT|" \o Run.id \o "|" \o ToString(Len(Run.args)) \o "|" \o ToString(Len(Run.opened)) \o "|" \o ToString(0) \o "|" \o ToString(0) \o "|" \o ToString(Cardinality(bad')))
         /\ \A b \in bad' : PrintT("BAD|" \o Run.id \o "|" \o b[1] \o "|" \o ToString(b[2]))
TSpec == TInit /\ [][TDone]_vars
=============================================================================
