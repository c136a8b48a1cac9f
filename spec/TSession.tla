----------------------------- MODULE TSession ------------------------------
(* Validation of recorded command line sessions against Session: the session is
   replayed source by source, then what was found on disk is compared with what
   the specification says each output folder must hold.                        *)
EXTENDS Judge, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, s, bad
vars == <<r, k, s, bad>>
Run == Runs[r]

(* controls in force: recorded directly, or given by the configuration files *)
Lits == {"R" \o ToString(i) : i \in 1..24}
L == INSTANCE Controls WITH MKeys <- {"hca", "lt", "shift"} \cup Lits, JKeys <- {"pretty", "hdr", "aux"}
File(f) == [kind |-> f.kind, d |-> [q \in {f.d[j][1] : j \in 1..Len(f.d)} |-> (CHOOSE x \in ToSet(f.d) : x[1] = q)[2]]]
Layered(run) == "layers" \in DOMAIN run
Layers(run) == L!After([j \in 1..Len(run.layers) |-> File(run.layers[j])])
CtlOk(run) == IF Layered(run) THEN L!Offered(Layers(run)) ELSE run.ctlok = 1
Ctl(run) == IF ~Layered(run) \/ ~CtlOk(run) THEN run.ctl
            ELSE LET e == TLCEval(L!Effective(Layers(run)))
                 IN [hca |-> e["hca"] = 1, lt |-> e["lt"] = 1, hdr |-> e["hdr"] = 1, aux |-> e["aux"] = 1, pretty |-> e["pretty"] = 1,
                     shift |-> e["shift"], lit |-> [j \in 1..24 |-> e["R" \o ToString(j)]]]

(* conversion of the bytes a source yielded *)
Product(run, src) == The({[gaps |-> x.gaps, done |-> x.done, derr |-> Len(x.rej)] : x \in {Conversion(run.mode, src.s, src.given)}})
(* what the log of a conversion has to say: the counters after every block that
   was read, and the numbers of the messages that were not converted            *)
Nums(fs) == [j \in 1..Len(fs) |-> FrameNum(fs[j])]
Counted(run, src, n) ==
  The({[acc |-> Nums(x.done), rej |-> Nums(x.rej), unk |-> Nums(x.unk),
        line |-> <<Len(x.rej) + Len(x.done), x.gaps, Len(x.rej), 0>>] : x \in {Conversion(run.mode, src.s, n)}})
Near(pct, n, size) == LET a == pct * size - 10000 * n IN a <= size /\ -a <= size
LogBad(run, q, p) ==
  LET m == Len(q.marks) IN
  UNION {
     (IF Len(q.prog) # m THEN { <<"sess.prog.count", p>> } ELSE
        UNION {LET w == q.prog[j] IN
               (IF ~Near(w[1], q.marks[j], Len(q.s)) THEN { <<"sess.prog.share", p>> } ELSE {})
               \cup (IF Tail(w) # Counted(run, q, q.marks[j]).line THEN { <<"sess.prog.counters", p>> } ELSE {}) : j \in 1..m})
     \cup (IF q.rej # all.rej THEN { <<"sess.rej", p>> } ELSE {})
     \cup (IF q.acc # all.acc THEN { <<"sess.acc", p>> } ELSE {})
     \cup (IF q.unk # all.unk THEN { <<"sess.unk", p>> } ELSE {})
     : all \in {Counted(run, q, q.given)}}
TClean(src) == LET c == Product(Runs[src.run], src) IN c.gaps = 0 /\ c.derr = 0
X == INSTANCE Session WITH Clean <- TClean

Src(run, rr, f) == LET q == run.src[f] IN [run |-> rr, s |-> q.s, given |-> q.given, kind |-> q.kind, dest |-> f, fault |-> q.fault = 1]

TInit == /\ r \in 1..Len(Runs) /\ k = 1 /\ bad = {}
         /\ s = X!SessionInit([d \in 1..Len(Runs[r].src) |-> Runs[r].src[d].kind0])
TSource == /\ k <= Len(Run.args)
           /\ s' = X!Handle(s, CtlOk(Run), Src(Run, r, Run.args[k]))
           /\ k' = k + 1 /\ UNCHANGED <<r, bad>>

DestBad(d) ==
  LET q == Run.src[d]
      p == ToString(d) \o ":"
      want == IF s.log[d] = "noctl" THEN <<>> ELSE Conversion(Run.mode, q.s, q.given).done
  IN (IF q.same # 1 THEN { <<"sess.source", p>> } ELSE {})
     \cup (IF s.disk[d] # "fresh"
           THEN (IF q.touched # 0 THEN { <<"sess.touched", p>> } ELSE {})
           ELSE IF q.dkind # "dir" THEN { <<"sess.folder", p>> }
           ELSE (IF q.left # 0 THEN { <<"sess.stale", p>> } ELSE {})
                \cup (IF q.log # <<s.log[d]>> THEN { <<"sess.log." \o s.log[d], p>> } ELSE {})
                \cup (IF s.log[d] \in {"ok", "err", "term"} THEN LogBad(Run, q, p) ELSE {})
                \cup (IF q.cross # 0 THEN { <<"sess.cross", p>> } ELSE {})
                \cup {<<"sess.out." \o b[1], p \o ToString(b[2])>> : b \in UNION {OutputBad(Run.mode, w, c, {}, q.files) : w \in {want}, c \in {Ctl(Run)}}})
TDone == /\ k = Len(Run.args) + 1 /\ k' = k + 1
         /\ bad' = UNION {DestBad(d) : d \in 1..Len(Run.src)}
                   \cup (IF Run.raised # 0 THEN { <<"sess.raise", Run.what>> } ELSE {})
                   \cup (IF Run.stray # <<>> THEN { <<"sess.stray", ToString(Run.stray)>> } ELSE {})
         /\ PrintT("VERDICT|" \o Run.id \o "|" \o ToString(Len(Run.args)) \o "|" \o ToString(Cardinality({d \in 1..Len(Run.src) : s.disk[d] = "fresh"})) \o "|" \o ToString(0) \o "|" \o ToString(0) \o "|" \o ToString(Cardinality(bad')))
         /\ \A b \in bad' : PrintT("BAD|" \o Run.id \o "|" \o b[1] \o "|" \o ToString(b[2]))
         /\ UNCHANGED <<r, s>>
TSpec == TInit /\ [][TSource \/ TDone]_vars
=============================================================================
