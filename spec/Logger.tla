------------------------------- MODULE Logger ------------------------------
(* The two-channel logger.  State: whether it is set up, its name and the file it
   appends to, the lines of every file and of the console.                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Rank == [debug |-> 1, info |-> 2, warning |-> 3, error |-> 4, critical |-> 5, progress |-> 5]
LevelNames == [debug |-> {"DEBUG"}, info |-> {"INFO"}, warning |-> {"WARNING"}, error |-> {"ERROR"},
               critical |-> {"CRITICAL", "PROGRESS"}, progress |-> {"PROGRESS"}]
ToConsole(l) == Rank[l] >= 3
ToFile(l) == Rank[l] >= 2
Off == [on |-> FALSE, f |-> 0, id |-> ""]
(* setting up a logger that is in use is refused *)
CanInit(s) == ~s.on
DoInit(s, f, id) == IF CanInit(s) THEN [on |-> TRUE, f |-> f, id |-> id] ELSE s
DoDeinit(s) == [s EXCEPT !.on = FALSE]
(* lines a record may appear as; console and per-file share of it *)
Lines(s, l, text) == {s.id \o ":" \o n \o ": " \o text : n \in LevelNames[l]}
ConsoleGets(s, l) == s.on /\ ToConsole(l)
FileGets(s, l, f) == s.on /\ ToFile(l) /\ s.f = f
=============================================================================
