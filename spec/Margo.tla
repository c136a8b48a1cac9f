------------------------------- MODULE Margo -------------------------------
(* MARGO observation tables.                                                   *)
EXTENDS Msm

Week == 604800000
(* time mark of a row: GPS time of week, ms *)
MargoTime(P, ctl) ==
  LET g == MsmGnss(Num(P)) IN
  IF g = "B" THEN LET t == Gtime(P) + 14000 IN IF t >= Week THEN t - Week ELSE t
  ELSE IF g = "R" THEN LET t == Gtime(P) + Gday(P) * 86400000 - (10800 - ctl.shift) * 1000
                       IN IF t < 0 THEN t + Week ELSE t
  ELSE Gtime(P)

(* carrier frequency, 100 Hz units; GLONASS FDMA depends on the satellite's channel *)
Carrier(g, sgn, sat, ctl) ==
  IF g = "R" THEN SigFreq(g, sgn) + ctl.lit[sat] * (IF sgn \in {2, 3} THEN 5625 ELSE 4375)
  ELSE SigFreq(g, sgn)

MParams(ctl) == <<"C", "L", "D", "S">> \o (IF ctl.lt THEN <<"T">> ELSE <<>>) \o (IF ctl.hca THEN <<"A">> ELSE <<>>)
ParOf == [C |-> "rng", L |-> "phs", D |-> "dpl", S |-> "c2n", T |-> "ltm", A |-> "hca"]
LightHz == MulN(FromNat(299792458), <<100>>)
NoCell == [x |-> "nan"]
Cell(n, p, q, k) == [x |-> "q", z |-> [n |-> n, p |-> p, q |-> q, k |-> k]]
CellOf(par, c, t, g, ctl) ==
  CASE par = "C" -> Cell(c.rng.n, CmPerMs, <<1000>>, RngExp(t))
    [] par = "L" -> IF c.hca.ok /\ c.hca.n.m # <<>> /\ ~ctl.hca THEN NoCell
                    ELSE Cell(c.phs.n, FromNat(Carrier(g, c.sgn, c.sat, ctl)), <<10>>, PhsExp(t))
    [] par = "D" -> Cell(Neg(c.dpl.n), FromNat(Carrier(g, c.sgn, c.sat, ctl)), LightHz, 0)
    [] par = "S" -> Cell(c.c2n.n, <<1>>, <<1>>, IF HiRes(t) THEN 4 ELSE 0)
    [] par = "T" -> Cell(c.ltm.n, <<1>>, <<1000>>, 0)
    [] par = "A" -> Cell(c.hca.n, <<1>>, <<1>>, 0)

(* What one message adds: a sequence of [path, par, g, sgn, time, cells]. *)
MargoRows(P, ctl) ==
  LET G == Geo(P)
      cells == IF G.sats = <<>> THEN <<>> ELSE CellObs(P)
      tm == MargoTime(P, ctl)
      one(par, sgn) ==
        LET L == SelectSeq(cells, LAMBDA c : c.sgn = sgn /\ c[ParOf[par]].ok)
        IN IF L = <<>> THEN <<>>
           ELSE << [path |-> MargoPath(G.g, par, SigCode(G.g, sgn), G.t), par |-> par, g |-> G.g, sgn |-> sgn, time |-> tm,
                    cells |-> [sat \in 1..MaxSats[G.g] |->
                       LET M == SelectSeq(L, LAMBDA c : c.sat = sat)
                       IN IF M = <<>> THEN NoCell ELSE CellOf(par, M[1], G.t, G.g, ctl)]] >>
  IN FlattenSeq([i \in 1..Len(MParams(ctl)) |-> FlattenSeq([j \in 1..Len(G.sgns) |-> one(MParams(ctl)[i], G.sgns[j])])])

(* ---- judging observed text cells: [t |-> "d", s, m, d, w] / [t |-> "n", w] / [t |-> "x"] *)
CellOk(e, o, par) ==
  IF e.x = "nan" THEN o.t = "n" /\ o.w >= MargoWidth[par]
  ELSE o.t = "d" /\ o.w >= MargoWidth[par] /\ o.d = MargoFrac[par] /\ NearD(e.z, o.s, o.m, o.d)
IntCell(o, v, w) == o.t = "d" /\ o.d = 0 /\ o.w >= w /\ EqZ([s |-> o.s, m |-> o.m], FromInt(v))
FreqCell(o, f, d, w) == o.t = "d" /\ o.d = d /\ o.w >= w
                        /\ NearD([n |-> FromInt(f), p |-> <<1>>, q |-> FromNat(10000), k |-> 0], o.s, o.m, o.d)
Max2(a, b) == IF a > b THEN a ELSE b
HeadOk(e, h1, h2, ctl) ==
  LET n == MaxSats[e.g]  w == MargoWidth[e.par]  d == Max2(4, MargoFrac[e.par]) IN
  /\ Len(h1) = n + 1 /\ Len(h2) = n + 1
  /\ IntCell(h1[1], MargoType[e.par], 10)
  /\ \A s \in 1..n : IntCell(h1[s + 1], s, w)
HeadFreqOk(e, h1, h2, ctl) ==
  LET n == MaxSats[e.g]  w == Max2(9, MargoWidth[e.par])  d == Max2(4, MargoFrac[e.par]) IN
  /\ Len(h2) = n + 1
  /\ FreqCell(h2[1], SigFreq(e.g, e.sgn), d, 10)
  /\ \A s \in 1..n : FreqCell(h2[s + 1], Carrier(e.g, e.sgn, s, ctl), d, w)
RowTimeOk(e, row) == Len(row) >= 1 /\ IntCell(row[1], e.time, 10)
RowCellsBad(e, row) == IF Len(row) # MaxSats[e.g] + 1 THEN {0}
                       ELSE {s \in 1..MaxSats[e.g] : ~CellOk(e.cells[s], row[s + 1], e.par)}
=============================================================================
