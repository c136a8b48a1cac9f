------------------------------ MODULE Session ------------------------------
(* One invocation of the command line tool: sources are converted one after the
   other, each into its own output folder named after source and mode.

   A source is a record with at least
      kind    "file" | "none" | "dir"      what its path denotes
      dest    the output folder it is converted into
      fault   TRUE if the environment made reading it fail
   ctlOk tells whether a complete set of default controls was available.
   State:
      i       number of sources dealt with
      disk    dest -> "none" | "stale" | "plain" | "fresh"   ("plain": a file is in the way)
      by      dest -> index of the source whose products it holds (0: none)
      log     dest -> "" | "ok" | "err" | "term" | "noctl"                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Clean(_)          \* source -> conversion of the bytes it yields is free of errors

Outcome(ctlOk, src, disk) ==
  IF src.kind # "file" THEN "skip"
  ELSE IF disk[src.dest] = "plain" THEN "blocked"
  ELSE IF ~ctlOk THEN "noctl"
  ELSE IF src.fault THEN "term"
  ELSE IF Clean(src) THEN "ok" ELSE "err"

SessionInit(disk0) == [i |-> 0, disk |-> disk0, by |-> [d \in DOMAIN disk0 |-> 0], log |-> [d \in DOMAIN disk0 |-> ""]]
Handle(s, ctlOk, src) ==
  LET o == Outcome(ctlOk, src, s.disk) IN
  IF o \in {"skip", "blocked"} THEN [s EXCEPT !.i = @ + 1]
  ELSE [s EXCEPT !.i = @ + 1, !.disk[src.dest] = "fresh", !.by[src.dest] = s.i + 1, !.log[src.dest] = o]
=============================================================================
