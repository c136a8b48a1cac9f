------------------------------- MODULE Judge -------------------------------
(* The concrete converter: classification of real frames, the documents and
   tables they must produce, and total comparison with what was observed.
   Every comparison yields a set of <<clause, detail>> pairs; {} = conforms.   *)
EXTENDS Rtcm3, Margo, Eph, Base

Family(n) == IF IsMsm(n) THEN "msm" ELSE IF n \in EphSet THEN "eph" ELSE IF n \in BaseSet THEN "base" ELSE "none"

(* "foreign": not a message of this mode; "reject": structurally or textually
   unusable; "accept": its content must be published.                          *)
RClass(mode, F) ==
  LET n == FrameNum(F)  P == Payload(F) IN
  IF ~Supported(mode, n) THEN "foreign"
  ELSE IF IsMsm(n) THEN (IF MsmAccept(P) /\ (Bare(mode) \/ MsmKnown(P)) THEN "accept" ELSE "reject")
  ELSE IF n \in EphSet THEN (IF EphAccept(n, P) THEN "accept" ELSE "reject")
  ELSE IF BaseAccept(n, P) /\ (Bare(mode) \/ BaseTextOk(n, P)) THEN "accept" ELSE "reject"

(* TLC computes a value bound over a singleton set once, a LET value at each use *)
The(S) == CHOOSE x \in S : TRUE
FramesAt(S, out) == TLCEval([k \in 1..Len(out) |-> FrameAt(S, out[k])])
Framed(S, n) == The({[f |-> x.f, fr |-> FramesAt(S, x.out)] : x \in {FR!Feed(S, n, FR!FramerInit)}})
(* what a whole stream of bytes converts to *)
Conversion(mode, S, n) ==
  The({[gaps |-> x.f.gaps,
        done |-> SelectSeq(x.fr, LAMBDA F : RClass(mode, F) = "accept"),
        rej |-> SelectSeq(x.fr, LAMBDA F : RClass(mode, F) = "reject"),
        unk |-> SelectSeq(x.fr, LAMBDA F : RClass(mode, F) = "foreign")] : x \in {Framed(S, n)}})

Entry(mode, F, ctl) ==
  LET n == FrameNum(F)  P == Payload(F) IN
  IF IsMsm(n) THEN (IF Bare(mode) THEN MsmBareDoc(P, ctl) ELSE MsmScaledDoc(P, ctl))
  ELSE IF n \in EphSet THEN EphDoc(n, P, Bare(mode)) ELSE BaseDoc(n, P, Bare(mode))

(* ---- output that cannot be written because something occupies its path -- *)
JsonBlocked(n, O) == JsonPath(n) \in O \/ JsonDir(n) \in O
RowBlocked(r, O) == r.path \in O \/ GnssName[r.g] \in O
RBlocked(mode, F, ctl, O) ==
  IF O = {} \/ RClass(mode, F) # "accept" THEN FALSE
  ELSE IF ToJsonDoc(mode, FrameNum(F)) THEN JsonBlocked(FrameNum(F), O)
  ELSE LET R == MargoRows(Payload(F), ctl) IN \E i \in 1..Len(R) : RowBlocked(R[i], O)

(* ------------------------------ JSON documents --------------------------- *)
SecDiff(e, o, path) ==      \* compares the sections of an object by name
  LET os == IF o.t = "o" THEN ToSet(o.k) ELSE {}
      es == {e.o[i][1] : i \in 1..Len(e.o)}
      sub(k) == o.v[SelectInSeq(o.k, LAMBDA y : y = k)]
  IN IF o.t # "o" THEN { <<"body", path>> }
     ELSE {<<"sec." \o k, path \o "/-" \o k>> : k \in es \ os}
          \cup {<<"sec.extra", path \o "/+" \o k>> : k \in os \ es}
          \cup (IF Len(o.k) # Len(e.o) THEN { <<"body", path \o "/#dup">> } ELSE {})
          \cup UNION {LET k == e.o[i][1] IN
                      IF k \in os THEN {<<k, d>> : d \in Diff(e.o[i][2], sub(k), path \o "/" \o k)} ELSE {}
                      : i \in 1..Len(e.o)}
(* an MSM entry is { time : { hdr, aux, obs | sat, sgn } } *)
MsmDiff(e, o, path) ==
  IF o.t # "o" THEN { <<"body", path>> }
  ELSE IF Len(o.k) # 1 THEN { <<"body", path>> }
  ELSE (IF o.k[1] # e.o[1][1] THEN { <<"time", path \o "/time">> } ELSE {}) \cup SecDiff(e.o[1][2], o.v[1], path)
EntryBad(mode, F, ctl, o, path) ==
  LET n == FrameNum(F)  e == Entry(mode, F, ctl)  fam == Family(n)
      b == IF Bare(mode) THEN "bare" ELSE "scaled"
  IN IF fam = "msm" THEN {<<"entry.msm." \o b \o "." \o d[1], d[2]>> : d \in MsmDiff(e, o, path)}
     ELSE {<<"entry." \o fam \o "." \o b, d>> : d \in Diff(e, o, path)}

Min2(a, b) == IF a < b THEN a ELSE b
(* fl: [p, k |-> "json", ok, src, e, nl]; frames: what must be in it, in order *)
JsonFileBad(mode, frames, ctl, fl) ==
  LET n == FrameNum(frames[1])
      fam == Family(n)
      p == fl.p
  IN IF fl.k # "json" THEN { <<"json.form." \o fam, p>> }
     ELSE IF fl.ok # 1 THEN { <<"json.form." \o fam, p>> }
     ELSE (IF fl.src # SourceType(mode, n) THEN { <<"json.src." \o fam, p>> } ELSE {})
          \cup (IF Len(fl.e) # Len(frames) THEN { <<"json.count." \o fam, p>> } ELSE {})
          \cup UNION {EntryBad(mode, frames[i], ctl, fl.e[i], p \o "[" \o ToString(i) \o "]")
                      : i \in 1..Min2(Len(fl.e), Len(frames))}
          \cup (IF \E i \in 1..Len(fl.nl) : (fl.nl[i] = 1) # ctl.pretty THEN { <<"json.pretty", p>> } ELSE {})

(* ------------------------------ MARGO tables ----------------------------- *)
CellClause(e, s) ==
  IF e.par = "T" THEN "margo.T" ELSE IF e.par = "A" THEN "margo.A"
  ELSE (IF e.cells[s].x = "nan" THEN "margo.nan." ELSE "margo.value.") \o e.par
(* fl: [p, k |-> "obs", h1, h2, rows]; rows: the expected rows of this file, in order *)
ObsFileBad(rows, ctl, fl) ==
  LET p == fl.p  e1 == rows[1]
      m == IF fl.k # "obs" THEN 0 ELSE Min2(Len(fl.rows), Len(rows))
  IN IF fl.k # "obs" THEN { <<"margo.form", p>> }
     ELSE (IF ~HeadOk(e1, fl.h1, fl.h2, ctl) THEN { <<"margo.head", p>> } ELSE {})
          \cup (IF ~HeadFreqOk(e1, fl.h1, fl.h2, ctl) THEN { <<"margo.freq", p>> } ELSE {})
          \cup (IF Len(fl.rows) # Len(rows) THEN { <<"margo.count." \o e1.par, p>> } ELSE {})
          \cup {<<"margo.time." \o e1.g, p \o "[" \o ToString(i) \o "]">> : i \in {j \in 1..m : ~RowTimeOk(rows[j], fl.rows[j])}}
          \cup UNION {{<<IF s = 0 THEN "margo.width" ELSE CellClause(rows[i], s),
                         p \o "[" \o ToString(i) \o "]:" \o ToString(s)>> : s \in RowCellsBad(rows[i], fl.rows[i])}
                      : i \in 1..m}

(* All output of one conversion.  done: accepted frames in order; O: obstructed
   relative paths; files: what was found below the output folder.              *)
OutputBad(mode, done, ctl, O, files) ==
  UNION {UNION {UNION {
     {<<"files.missing." \o Family(FrameNum(js[i])), JsonPath(FrameNum(js[i]))>>
        : i \in {j \in 1..Len(js) : JsonPath(FrameNum(js[j])) \notin got}}
     \cup {<<"files.missing.margo." \o open[i].par, open[i].path>> : i \in {j \in 1..Len(open) : open[j].path \notin got}}
     \cup {<<"files.extra." \o files[i].k \o files[i].par, files[i].p>>
             : i \in {j \in 1..Len(files) : files[j].p \notin (P[1] \cup P[2])}}
     \cup UNION {LET fl == files[i] IN
                 IF fl.p \in P[1] THEN UNION {JsonFileBad(mode, fs, ctl, fl) : fs \in {SelectSeq(js, LAMBDA F : JsonPath(FrameNum(F)) = fl.p)}}
                 ELSE IF fl.p \in P[2] THEN UNION {ObsFileBad(rs, ctl, fl) : rs \in {SelectSeq(open, LAMBDA r : r.path = fl.p)}}
                 ELSE {} : i \in 1..Len(files)}
     : P \in { << {JsonPath(FrameNum(js[i])) : i \in 1..Len(js)}, {open[i].path : i \in 1..Len(open)} >> },
       got \in { {files[i].p : i \in 1..Len(files)} } }
     : js \in { SelectSeq(done, LAMBDA F : ToJsonDoc(mode, FrameNum(F)) /\ ~JsonBlocked(FrameNum(F), O)) },
       open \in { SelectSeq(rows, LAMBDA r : ~RowBlocked(r, O)) } }
     : rows \in { FoldLeft(LAMBDA a, F : IF ToMargo(mode, FrameNum(F)) THEN a \o MargoRows(Payload(F), ctl) ELSE a, <<>>, done) } }
=============================================================================
