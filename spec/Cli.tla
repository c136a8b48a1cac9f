-------------------------------- MODULE Cli --------------------------------
(* Meaning of a command line.  It is read from left to right as a sequence of
   words [k, v]:
     "o"   output format v           "bad"  unknown output format
     "i"   user configuration v      "ext"  file extension v
     "src" a source                  "unk"  an option nobody knows
     "cut" an option at the end of the line lacking its value
     "ver" "help"                    show version / usage and stop
   The last value given for an option is in force.                             *)
EXTENDS Integers, Sequences, SequencesExt
CliInit == [fmt |-> "MARGO", ini |-> "", ext |-> "rtcm3", src |-> 0, unk |-> FALSE, end |-> ""]
Word(c, w) ==
  IF c.end # "" THEN c
  ELSE CASE w.k = "o"   -> [c EXCEPT !.fmt = w.v]
         [] w.k = "i"   -> [c EXCEPT !.ini = w.v]
         [] w.k = "ext" -> [c EXCEPT !.ext = w.v]
         [] w.k = "src" -> [c EXCEPT !.src = @ + 1]
         [] w.k = "unk" -> [c EXCEPT !.unk = TRUE]
         [] w.k \in {"bad", "cut"} -> [c EXCEPT !.end = "refused"]
         [] w.k \in {"ver", "help"} -> [c EXCEPT !.end = "told"]
Finish(c) == IF c.end # "" THEN c
             ELSE IF c.unk \/ c.src = 0 THEN [c EXCEPT !.end = "refused"] ELSE [c EXCEPT !.end = "run"]
Cli(words) == Finish(FoldLeft(Word, CliInit, words))
=============================================================================
