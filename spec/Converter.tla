----------------------------- MODULE Converter -----------------------------
(* One conversion: framing state, dispatch, decoding, printing, accounting.

   State record st:
     f       framer state (see Framer)
     att     decoding attempts (messages handed to a decoder)
     derr    decoding errors   (messages the decoder rejected)
     patt    printing attempts (decoded messages handed to a printer)
     perr    printing errors   (messages whose output could not be written completely)
     done    sequence of the accepted frames, in order of arrival
   The classification of a frame is a parameter, so that the same machine is
   model-checked over abstract frames and used to validate recorded traces.    *)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Class(_, _),        \* mode, frame -> "foreign" | "reject" | "accept"
          F0,                 \* initial framer state
          Blocked(_, _, _)    \* mode, frame, obstacles -> can its output not be written completely?

ConvInit == [f |-> F0, att |-> 0, derr |-> 0, patt |-> 0, perr |-> 0, done |-> <<>>]

Decode(st, mode, frame) ==
  LET c == Class(mode, frame) IN
  CASE c = "foreign" -> st
    [] c = "reject"  -> [st EXCEPT !.att = @ + 1, !.derr = @ + 1]
    [] c = "accept"  -> [st EXCEPT !.att = @ + 1, !.done = Append(@, frame)]

Show(st, mode, frame, obst) ==
  [st EXCEPT !.patt = @ + 1, !.perr = @ + (IF Blocked(mode, frame, obst) THEN 1 ELSE 0)]

Message(st, mode, frame, obst) ==
  LET a == Decode(st, mode, frame)
  IN IF Class(mode, frame) = "accept" THEN Show(a, mode, frame, obst) ELSE a

Stats(st) == <<st.att, st.f.gaps, st.derr, st.patt, st.perr>>
CleanRun(st) == st.f.gaps = 0 /\ st.derr = 0 /\ st.perr = 0
=============================================================================
