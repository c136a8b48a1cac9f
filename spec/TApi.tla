-------------------------------- MODULE TApi -------------------------------
(* Validation of recorded library use: several converters in one process, the
   operations interleaved (MCApi).  The specification steps one Converter per
   converter; a data block is identified by the message it was decoded from and
   may be printed any time after.                                              *)
EXTENDS Judge, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)

(* a message is <<run, feed event, index in its deliveries>> *)
Bytes(h) == Runs[h[1]].ev[h[2]].d[h[3]]
TClass(mode, h) == RClass(mode, Bytes(h))
TBlocked(mode, h, O) == FALSE
C == INSTANCE Converter WITH Class <- TClass, F0 <- FR!FramerInit, Blocked <- TBlocked

VARIABLES r, i,
          av,     \* converter -> bytes fed
          st,     \* converter -> state of the specification
          out,    \* converter -> messages printed, in order of printing
          bad
vars == <<r, i, av, st, out, bad>>
Run == Runs[r]
Ev == Run.ev[i]
Cs(run) == 1..Len(run.conv)
TInit == /\ r \in 1..Len(Runs) /\ i = 1 /\ bad = {}
         /\ av = [c \in Cs(Runs[r]) |-> 0] /\ st = [c \in Cs(Runs[r]) |-> C!ConvInit] /\ out = [c \in Cs(Runs[r]) |-> <<>>]

StatBad(s, obs) == IF C!Stats(s) # obs THEN { <<"lib.stat", i>> } ELSE {}
(* nobody else's counters may move *)
OthersBad == UNION {StatBad(st'[c], Ev.all[c]) : c \in {c \in Cs(Run) : Len(Ev.all[c]) > 0}}   \* (those created so far)
IsEvent(e) == i <= Len(Run.ev) /\ Ev.e = e /\ i' = i + 1 /\ r' = r
TCreate == /\ IsEvent("new")
           /\ UNCHANGED <<av, st, out>>
           /\ bad' = bad \cup OthersBad
TFeed == /\ IsEvent("feed")
         /\ LET c == Ev.c IN
            \E x \in {FR!Feed(Run.conv[c].s, av[c] + Ev.n, st[c].f)} :
            \E want \in {FramesAt(Run.conv[c].s, x.out)} :
               /\ av' = [av EXCEPT ![c] = @ + Ev.n]
               /\ st' = [st EXCEPT ![c].f = x.f]
               /\ bad' = bad \cup (IF want # Ev.d THEN { <<"lib.deliver", i>> } ELSE {}) \cup OthersBad
         /\ UNCHANGED out
TDecode == /\ IsEvent("dec")
           /\ LET c == Ev.c
                  h == <<r, Ev.k, Ev.j>>
              IN /\ st' = [st EXCEPT ![c] = C!Decode(st[c], Run.conv[c].mode, h)]
                 /\ bad' = bad \cup (IF (TClass(Run.conv[c].mode, h) = "accept") # (Ev.ok = 1) THEN { <<"lib.accept", i>> } ELSE {})
                               \cup OthersBad
           /\ UNCHANGED <<av, out>>
TPrint == /\ IsEvent("prn")
          /\ LET c == Ev.c
                 h == <<r, Ev.k, Ev.j>>
             IN /\ st' = [st EXCEPT ![c] = C!Show(st[c], Run.conv[c].mode, h, {})]
                /\ out' = [out EXCEPT ![c] = Append(@, h)]
                /\ bad' = bad \cup OthersBad
          /\ UNCHANGED av
TRelease == /\ IsEvent("rel")
            /\ UNCHANGED <<av, st, out>>
            /\ bad' = bad \cup OthersBad
TRaise == /\ IsEvent("exc")
          /\ bad' = bad \cup { <<"lib.raise." \o Ev.w, i>> }
          /\ UNCHANGED <<av, st, out>>
Products == UNION {{<<"lib.out." \o b[1], ToString(c) \o ":" \o ToString(b[2])>> :
                     b \in LET q == Run.conv[c] IN
                           UNION {OutputBad(q.mode, done, q.ctl, {}, q.files) : done \in {TLCEval([k \in 1..Len(out[c]) |-> Bytes(out[c][k])])}}} : c \in Cs(Run)}
TDone == /\ i = Len(Run.ev) + 1
         /\ i' = i + 1
         /\ bad' = bad \cup Products
         /\ PrintT("VERDICT|" \o Run.id \o "|" \o ToString(Len(Run.ev)) \o "|" \o ToString(Len(Run.conv)) \o "|0|0|" \o ToString(Cardinality(bad')))
         /\ \A b \in bad' : PrintT("BAD|" \o Run.id \o "|" \o b[1] \o "|" \o ToString(b[2]))
         /\ UNCHANGED <<r, av, st, out>>
TNext == TCreate \/ TFeed \/ TDecode \/ TPrint \/ TRaise \/ TRelease \/ TDone
TSpec == TInit /\ [][TNext]_vars
=============================================================================
