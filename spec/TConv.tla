------------------------------- MODULE TConv -------------------------------
(* Trace validation: every recorded run of the real converter is stepped
   through the specification, one event of the public interface at a time
   (feed a chunk / decode a message / print a data block / release), and the
   deviations are collected.  Runs are independent behaviours (one initial
   state each).  A deviation never stops the validation of the rest.

   Two kinds of runs are recorded:
     "api"   the recorder itself drives the converter interface;
     "file"  the file conversion loop of the code under test drives a
             converter through a logging wrapper, which may inject a fault
             (interrupt, exception) at any call.                               *)
EXTENDS Judge, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

(* a frame is referred to by <<run, feed event, index in its deliveries>> *)
Bytes(h) == Runs[h[1]].ev[h[2]].d[h[3]]
TClass(mode, h) == RClass(mode, Bytes(h))
TBlocked(mode, h, O) == RBlocked(mode, Bytes(h), Runs[h[1]].ctl, O)
C == INSTANCE Converter WITH Class <- TClass, F0 <- FR!FramerInit, Blocked <- TBlocked

VARIABLES r,      \* run
          i,      \* next event
          av,     \* bytes fed so far
          st,     \* converter state of the specification
          due,    \* <<feed event, next message to decode, messages delivered>>
          toprint,\* 1 if the last message was decoded and awaits printing
          n,      \* frames expected so far (statistics only)
          bad     \* deviations found
vars == <<r, i, av, st, due, toprint, n, bad>>

Run == Runs[r]
Ev == Run.ev[i]
(* obstacles stand from the start; they may be taken away in the course of the run *)
Cleared == Run.clr = 1 /\ \E k \in 1..(i - 1) : Run.ev[k].e = "clr"
Obst == IF Cleared THEN {} ELSE ToSet(Run.obst)

TInit == /\ r \in 1..Len(Runs)
         /\ i = 1 /\ av = 0 /\ st = C!ConvInit /\ due = <<0, 1, 0>> /\ toprint = 0 /\ n = 0 /\ bad = {}

StatNames == <<"att", "gaps", "derr", "patt", "perr">>
StatBad(s, obs) == {<<"stat." \o StatNames[k], i>> : k \in {j \in 1..5 : C!Stats(s)[j] # obs[j]}}
IsEvent(e) == i <= Len(Run.ev) /\ Ev.e = e /\ i' = i + 1 /\ r' = r
Idle == due[2] > due[3] /\ toprint = 0
LoopBad(cond, what) == IF cond THEN {} ELSE { <<"loop." \o what, i>> }

(* deliveries that are no well-formed frame at all *)
Forged(F) == IF Len(F) < 6 THEN TRUE
             ELSE F[1] # 211 \/ F[2] > 3 \/ Len(F) # 6 + F[2] * 256 + F[3] \/ ~CrcOk(F)
TFeed == /\ IsEvent("feed")
         /\ \E x \in {FR!Feed(Run.s, av + Ev.n, st.f)} :
            \E want \in {FramesAt(Run.s, x.out)} :
               /\ av' = av + Ev.n
               /\ st' = [st EXCEPT !.f = x.f]
               /\ n' = n + Len(want)
               /\ bad' = bad \cup (IF want # Ev.d THEN { <<"deliver", i>> } ELSE {})
                             \cup {<<"forged", i>> : k \in {j \in 1..Len(Ev.d) : Forged(Ev.d[j])}}
                             \cup StatBad([st EXCEPT !.f = x.f], Ev.st)
                             \cup LoopBad(Idle, "skip") \cup LoopBad(Ev.same = 1, "bytes")
         /\ due' = <<i, 1, Len(Ev.d)>> /\ toprint' = 0
TDecode == /\ IsEvent("dec")
           /\ LET known == Ev.k = due[1] /\ Ev.j = due[2] /\ Ev.j <= due[3]
                  h == <<r, Ev.k, Ev.j>>
                  s2 == C!Decode(st, Run.mode, h)
                  c == TClass(Run.mode, h)
                  fam == Family(FrameNum(Bytes(h)))
              IN IF ~known
                 THEN /\ bad' = bad \cup { <<"loop.order", i>> } /\ UNCHANGED <<st, due, toprint>>
                 ELSE /\ st' = s2
                      /\ due' = [due EXCEPT ![2] = @ + 1]
                      /\ toprint' = Ev.ok
                      /\ bad' = bad \cup (IF (c = "accept") # (Ev.ok = 1)
                                          THEN { <<"accept." \o c \o "." \o fam, i>> } ELSE {})
                                    \cup StatBad(s2, Ev.st) \cup LoopBad(toprint = 0, "unprinted")
           /\ UNCHANGED <<av, n>>
TPrint == /\ IsEvent("prn")
          /\ LET h == <<r, Ev.k, Ev.j>>
                 s2 == C!Show(st, Run.mode, h, Obst)
             IN IF toprint = 0 \/ Ev.k # due[1] \/ Ev.j # due[2] - 1
                THEN /\ bad' = bad \cup { <<"loop.print", i>> } /\ UNCHANGED st
                ELSE /\ st' = IF Run.clr = 1 /\ TBlocked(Run.mode, h, Obst) THEN [s2 EXCEPT !.done = SubSeq(@, 1, Len(@) - 1)] ELSE s2
                     /\ bad' = bad \cup StatBad(s2, Ev.st)
          /\ toprint' = 0
          /\ UNCHANGED <<av, due, n>>
(* the injected fault struck: the message being worked on may remain unprinted *)
TFault == /\ IsEvent("fault")
          /\ st' = IF toprint = 1 /\ st.done # <<>> /\ Run.ev[i].lost = 1
                   THEN [st EXCEPT !.done = SubSeq(@, 1, Len(@) - 1)] ELSE st
          /\ due' = <<0, 1, 0>> /\ toprint' = 0
          /\ UNCHANGED <<av, n, bad>>
(* an operation of the public interface raised although nothing was injected *)
TRaise == /\ IsEvent("exc")
          /\ bad' = bad \cup { <<"raise." \o Ev.w, i>> }
          /\ due' = IF Ev.w = "decode" THEN [due EXCEPT ![2] = @ + 1] ELSE due
          /\ toprint' = 0
          /\ UNCHANGED <<av, st, n>>
TClear == IsEvent("clr") /\ UNCHANGED <<av, st, due, toprint, n, bad>>
TRelease == /\ IsEvent("rel")
            /\ \E done \in {[k \in 1..Len(st.done) |-> Bytes(st.done[k])]} :
               \E all \in {FR!Feed(Run.s, av, FR!FramerInit).out} :
               \E got \in {FlattenSeq([k \in 1..Len(Run.ev) |-> IF Run.ev[k].e = "feed" THEN Run.ev[k].d ELSE <<>>])} :
                  bad' = bad \cup (IF got # FramesAt(Run.s, all) THEN { <<"frames", 0>> } ELSE {})
                             \cup OutputBad(Run.mode, done, Run.ctl, Obst, Run.files)
                             \cup LoopBad(Idle, "skip")
            /\ UNCHANGED <<av, st, due, toprint, n>>
(* how the file loop ended *)
EndBad == IF Run.kind # "file" THEN {}
          ELSE (IF Run.nrel < 1 THEN { <<"end.release", Run.nrel>> } ELSE {})
               \cup (IF Run.ret # (IF Run.fault = 1 THEN "F" ELSE "T") THEN { <<"end.result", 0>> } ELSE {})
               \cup (IF Run.fault = 0 /\ Run.ret = "T" /\ Run.said # (IF st.f.gaps + st.derr + st.perr = 0 THEN "ok" ELSE "err") THEN { <<"end.verdict", 0>> } ELSE {})
               \cup (IF Run.fault = 0 /\ av # Len(Run.s) THEN { <<"loop.bytes", av>> } ELSE {})
TDone == /\ i = Len(Run.ev) + 1
         /\ i' = i + 1
         /\ bad' = bad \cup EndBad
         /\ PrintT("VERDICT|" \o Run.id \o "|" \o ToString(n) \o "|" \o ToString(Len(st.done)) \o "|" \o ToString(st.derr) \o "|" \o ToString(st.f.gaps) \o "|" \o ToString(Cardinality(bad')))
         /\ \A b \in bad' : PrintT("BAD|" \o Run.id \o "|" \o b[1] \o "|" \o ToString(b[2]))
         /\ UNCHANGED <<r, av, st, due, toprint, n>>
TNext == TFeed \/ TDecode \/ TPrint \/ TFault \/ TRaise \/ TClear \/ TRelease \/ TDone
TSpec == TInit /\ [][TNext]_vars
=============================================================================
