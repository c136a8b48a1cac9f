-------------------------------- MODULE Msm --------------------------------
(* RTCM 10403 Multiple Signal Messages 1..7: structure, raw fields, observables.
   P is the payload (message number included, frame header and CRC excluded).  *)
EXTENDS Doc, Catalog

(* field name, width, kind ("u"/"s"), in transmission order *)
SatLayout(t) ==
  CASE t \in {5, 7} -> << <<"rng_ms", 8, "u">>, <<"ext_info", 4, "u">>, <<"rng_rough", 10, "u">>, <<"phase_rate_rough", 14, "s">> >>
    [] t \in {4, 6} -> << <<"rng_ms", 8, "u">>, <<"rng_rough", 10, "u">> >>
    [] OTHER        -> << <<"rng_rough", 10, "u">> >>
SgnLayout(t) ==
  CASE t = 7 -> << <<"rng_fine", 20, "s">>, <<"phase_fine", 24, "s">>, <<"lock_time", 10, "u">>, <<"hc_indc", 1, "u">>, <<"c2n", 10, "u">>, <<"phase_rate_fine", 15, "s">> >>
    [] t = 6 -> << <<"rng_fine", 20, "s">>, <<"phase_fine", 24, "s">>, <<"lock_time", 10, "u">>, <<"hc_indc", 1, "u">>, <<"c2n", 10, "u">> >>
    [] t = 5 -> << <<"rng_fine", 15, "s">>, <<"phase_fine", 22, "s">>, <<"lock_time", 4, "u">>, <<"hc_indc", 1, "u">>, <<"c2n", 6, "u">>, <<"phase_rate_fine", 15, "s">> >>
    [] t = 4 -> << <<"rng_fine", 15, "s">>, <<"phase_fine", 22, "s">>, <<"lock_time", 4, "u">>, <<"hc_indc", 1, "u">>, <<"c2n", 6, "u">> >>
    [] t = 3 -> << <<"rng_fine", 15, "s">>, <<"phase_fine", 22, "s">>, <<"lock_time", 4, "u">>, <<"hc_indc", 1, "u">> >>
    [] t = 2 -> << <<"phase_fine", 22, "s">>, <<"lock_time", 4, "u">>, <<"hc_indc", 1, "u">> >>
    [] OTHER -> << <<"rng_fine", 15, "s">> >>
(* every raw document lists the same columns per family; absent ones are a lone 0 *)
SatColumns(t) == IF t <= 3 THEN <<"rng_rough">> ELSE <<"rng_ms", "ext_info", "rng_rough", "phase_rate_rough">>
SgnColumns(t) == IF t <= 3 THEN <<"rng_fine", "phase_fine", "lock_time", "hc_indc">>
                 ELSE <<"rng_fine", "phase_fine", "lock_time", "hc_indc", "c2n", "phase_rate_fine">>

HdrBits == 169
Num(P) == U(P, 0, 12)
SetBits(P, off, w) == SelectSeq([i \in 1..w |-> i], LAMBDA i : Bit(P, off + i - 1) = 1)
RowBits(layout) == FoldLeft(LAMBDA a, f : a + f[2], 0, layout)

(* Geometry of a message: satellite ids, signal ids, cell positions in the
   satellite x signal grid (row-major), section offsets, required length.      *)
Geo(P) ==
  LET sats == SetBits(P, 73, 64)
      sgns == SetBits(P, 137, 32)
      grid == Len(sats) * Len(sgns)
      fits == grid <= 64 /\ 8 * Len(P) >= HdrBits + grid
      cells == IF fits THEN SetBits(P, HdrBits, grid) ELSE <<>>
      t == MsmSub(Num(P))
      satOff == HdrBits + grid
      sgnOff == satOff + RowBits(SatLayout(t)) * Len(sats)
      bits == sgnOff + RowBits(SgnLayout(t)) * Len(cells)
  IN [sats |-> sats, sgns |-> sgns, grid |-> grid, fits |-> fits, cells |-> cells, t |-> t,
      g |-> MsmGnss(Num(P)), satOff |-> satOff, sgnOff |-> sgnOff, bits |-> bits]

(* Structural acceptance of the raw message. *)
MsmAccept(P) ==
  /\ 8 * Len(P) >= HdrBits
  /\ LET G == Geo(P) IN
     IF G.sats = <<>> THEN Len(P) = CeilDiv8(HdrBits)
     ELSE /\ G.sgns # <<>> /\ G.fits /\ G.cells # <<>>
          /\ Len(P) = CeilDiv8(G.bits)
(* Scaled output additionally needs every announced signal to be a known one. *)
MsmKnown(P) == LET G == Geo(P) IN G.sats = <<>> \/ \A i \in 1..Len(G.sgns) : SigKnown(G.g, G.sgns[i])

(* Column of a section: n values of the field `name`, or <<>> if absent. *)
RECURSIVE ColAt(_, _, _, _, _)
ColAt(layout, i, name, off, n) ==
  IF i > Len(layout) THEN <<0, 0, "none">>
  ELSE IF layout[i][1] = name THEN <<off, layout[i][2], layout[i][3]>>
  ELSE ColAt(layout, i + 1, name, off + layout[i][2] * n, n)
RawI(P, col, j) == IF col[3] = "s" THEN SmallS(P, col[1] + (j - 1) * col[2], col[2])
                   ELSE U(P, col[1] + (j - 1) * col[2], col[2])
ColDoc(P, layout, name, off, n) ==
  LET col == ColAt(layout, 1, name, off, n)
  IN IF col[3] = "none" THEN Ar(<<IN_(0)>>) ELSE Ar([j \in 1..n |-> IN_(RawI(P, col, j))])

Time30(P) == U(P, 24, 30)
Gtime(P) == IF MsmGnss(Num(P)) = "R" THEN U(P, 27, 27) ELSE U(P, 24, 30)
Gday(P)  == IF MsmGnss(Num(P)) = "R" THEN U(P, 24, 3) ELSE 0

(* masks are published with bit (i-1) standing for id i *)
MaskDoc(ids, w) ==
  LET S == ToSet(ids) IN
  [x |-> "i", z |-> [s |-> 0, m |-> Trim([l \in 1..((w + 11) \div 12) |->
     FoldLeft(LAMBDA a, b : a + (IF (l - 1) * 12 + b \in S THEN Pow2[b - 1] ELSE 0), 0, [b \in 1..12 |-> b])])]]

BareHdr(P) ==
  LET G == Geo(P) IN
  Ob(<< <<"rs_id", IN_(U(P, 12, 12))>>, <<"time", IN_(Time30(P))>>, <<"MMB", IN_(Bit(P, 54))>>,
        <<"IODS", IN_(U(P, 55, 3))>>, <<"clk_steer", IN_(U(P, 65, 2))>>, <<"clk_ext", IN_(U(P, 67, 2))>>,
        <<"smth_indc", IN_(Bit(P, 69))>>, <<"smth_intr", IN_(U(P, 70, 3))>>,
        <<"sat_mask", MaskDoc(G.sats, 64)>>, <<"sgn_mask", MaskDoc(G.sgns, 32)>>,
        <<"cell_mask", IF G.sats = <<>> THEN IN_(0) ELSE MaskDoc(G.cells, 64)>> >>)
BareAux(P) == Ob(<< <<"gnss", St(MsmGnss(Num(P)))>>, <<"subset", St("MSM" \o ToString(MsmSub(Num(P))))>>,
                    <<"msg_number", IN_(Num(P))>> >>)
BareSat(P) ==
  LET G == Geo(P)  n == Len(G.sats)  cols == SatColumns(G.t) IN
  Ob([i \in 1..Len(cols) |-> <<cols[i], IF n = 0 THEN Ar(<<IN_(0)>>) ELSE ColDoc(P, SatLayout(G.t), cols[i], G.satOff, n)>>])
BareSgn(P) ==
  LET G == Geo(P)  n == Len(G.cells)  cols == SgnColumns(G.t) IN
  Ob([i \in 1..Len(cols) |-> <<cols[i], IF G.sats = <<>> THEN Ar(<<IN_(0)>>) ELSE ColDoc(P, SgnLayout(G.t), cols[i], G.sgnOff, n)>>])
MsmBareDoc(P, ctl) ==
  Ob(<< <<ToString(Gtime(P)),
       Ob((IF ctl.hdr THEN << <<"hdr", BareHdr(P)>> >> ELSE <<>>)
          \o (IF ctl.aux THEN << <<"aux", BareAux(P)>> >> ELSE <<>>)
          \o << <<"sat", BareSat(P)>>, <<"sgn", BareSgn(P)>> >>)>> >>)

(* ------------------------- scaled observables ---------------------------- *)
LockMs10(t) == IF t < 64 THEN t
               ELSE IF t < 704 THEN LET k == (t \div 32) - 1 IN Pow2[k] * (t - 32 * k)
               ELSE IF t = 704 THEN 67108864 ELSE 0
LockMs4(t)  == IF t = 0 THEN 0 ELSE Pow2[4 + t]

HiRes(t) == t \in {6, 7}
RngExp(t) == IF HiRes(t) THEN 29 ELSE 24       \* resolution of fine code range, 2^-k ms
PhsExp(t) == IF HiRes(t) THEN 31 ELSE 29       \* resolution of fine phase range
MinusFull(w) == -(Pow2[w - 2] + Pow2[w - 2])   \* the "not available" code: sign bit only

(* One record per cell: satellite id, signal id and, per observable, its
   availability and its value (n: integer number of resolution units).         *)
CellObs(P) ==
  LET G == Geo(P)
      ns == Len(G.sats)  nc == Len(G.cells)  t == G.t
      sc(name) == ColAt(SatLayout(t), 1, name, G.satOff, ns)
      gc(name) == ColAt(SgnLayout(t), 1, name, G.sgnOff, nc)
      cMs == sc("rng_ms")  cRough == sc("rng_rough")  cRate == sc("phase_rate_rough")
      fR == gc("rng_fine")  fP == gc("phase_fine")  fT == gc("lock_time")  fH == gc("hc_indc")
      fC == gc("c2n")  fD == gc("phase_rate_fine")
      has(c) == c[3] # "none"
  IN TLCEval([j \in 1..nc |->
       LET si == ((G.cells[j] - 1) \div Len(G.sgns)) + 1
           gi == ((G.cells[j] - 1) % Len(G.sgns)) + 1
           ms == IF has(cMs) THEN RawI(P, cMs, si) ELSE 0
           roughOk == ms # 255
           rough == ms * 1024 + RawI(P, cRough, si)             \* units of 2^-10 ms
           fr == IF has(fR) THEN RawI(P, fR, j) ELSE 0
           fp == IF has(fP) THEN RawI(P, fP, j) ELSE 0
           rngOk == has(fR) /\ roughOk /\ fr # MinusFull(fR[2])
           phsOk == has(fP) /\ roughOk /\ fp # MinusFull(fP[2]) /\ (t = 3 => rngOk)
           dplOk == has(fD) /\ RawI(P, cRate, si) # MinusFull(14) /\ RawI(P, fD, j) # MinusFull(15)
           lkOk  == has(fT) /\ (t <= 3 => phsOk)
       IN [sat |-> G.sats[si], sgn |-> G.sgns[gi],
           rng |-> [ok |-> rngOk, n |-> IF rngOk THEN AddZ([s |-> 0, m |-> ShlN(FromNat(rough), RngExp(t) - 10)], FromInt(fr)) ELSE Zero],
           phs |-> [ok |-> phsOk, n |-> IF phsOk THEN AddZ([s |-> 0, m |-> ShlN(FromNat(rough), PhsExp(t) - 10)], FromInt(fp)) ELSE Zero],
           dpl |-> [ok |-> dplOk, n |-> IF dplOk THEN FromInt(RawI(P, cRate, si) * 10000 + RawI(P, fD, j)) ELSE Zero],
           ltm |-> [ok |-> lkOk, n |-> IF lkOk THEN FromInt(IF HiRes(t) THEN LockMs10(RawI(P, fT, j)) ELSE LockMs4(RawI(P, fT, j))) ELSE Zero],
           hca |-> [ok |-> lkOk, n |-> IF lkOk THEN FromInt(RawI(P, fH, j)) ELSE Zero],
           c2n |-> [ok |-> has(fC), n |-> IF has(fC) THEN FromInt(RawI(P, fC, j)) ELSE Zero]]])

CmPerMs == FromNat(299792458)        \* speed of light, mm per ... : 299792.458 m per ms = p/1000
ValDoc(par, v, t) ==
  CASE par = "rng" -> Qt(v.n, CmPerMs, <<1000>>, RngExp(t))
    [] par = "phs" -> Qt(v.n, CmPerMs, <<1000>>, PhsExp(t))
    [] par = "dpl" -> Qt(v.n, <<1>>, FromNat(10000), 0)
    [] par = "ltm" -> I(v.n)
    [] par = "hca" -> Bo(v.n.m # <<>>)
    [] par = "c2n" -> Qt(v.n, <<1>>, <<1>>, IF HiRes(t) THEN 4 ELSE 0)
Params == <<"rng", "phs", "ltm", "hca", "dpl", "c2n">>

ParamDoc(P, G, cells, par) ==
  LET of(s) == SelectSeq(cells, LAMBDA c : c.sgn = s /\ c[par].ok)
      used == SelectSeq(G.sgns, LAMBDA s : of(s) # <<>>)
  IN Ob([i \in 1..Len(used) |->
          LET L == of(used[i]) IN
          <<SigCode(G.g, used[i]), Ob([j \in 1..Len(L) |-> <<ToString(L[j].sat), ValDoc(par, L[j][par], G.t)>>])>>])

ObsDoc(P) == LET G == Geo(P)
                 cells == IF G.sats = <<>> THEN <<>> ELSE CellObs(P)
             IN Ob([i \in 1..Len(Params) |-> <<Params[i], ParamDoc(P, G, cells, Params[i])>>])

ClkSteer(c) == CASE c = 0 -> "OFF" [] c = 1 -> "ON" [] OTHER -> "UNDEF"
ClkExt(c) == CASE c = 0 -> "INTERNAL" [] c = 1 -> "EXT-LOCK" [] c = 2 -> "EXT-UNLOCK" [] OTHER -> "UNDEF"
SmthIndc(c) == IF c = 1 THEN "DVRG-FREE" ELSE "UNDEF"
SmthIntr(c) == <<"NOSMTH", "00-30", "30-60", "60-120", "120-240", "240-480", "480+", "UNLIM">>[c + 1]
CodeVal(c, v) == Ob(<< <<"code", IN_(c)>>, <<"val", St(v)>> >>)
ScaledAux(P) ==
  Ob(<< <<"rs_id", IN_(U(P, 12, 12))>>, <<"MMB", IN_(Bit(P, 54))>>, <<"IODS", IN_(U(P, 55, 3))>>,
        <<"clk_steer", CodeVal(U(P, 65, 2), ClkSteer(U(P, 65, 2)))>>,
        <<"clk_ext", CodeVal(U(P, 67, 2), ClkExt(U(P, 67, 2)))>>,
        <<"smth_indc", CodeVal(Bit(P, 69), SmthIndc(Bit(P, 69)))>>,
        <<"smth_intr", CodeVal(U(P, 70, 3), SmthIntr(U(P, 70, 3)))>> >>)
ScaledHdr(P) ==
  LET G == Geo(P) IN
  Ob(<< <<"signals", IF G.sats = <<>> THEN Ob(<<>>)
                     ELSE Ob([i \in 1..Len(G.sgns) |->
                           <<SigCode(G.g, G.sgns[i]), Qt(FromInt(SigFreq(G.g, G.sgns[i])), <<1>>, FromNat(10000), 0)>>])>>,
        <<"sats", Ar([i \in 1..Len(G.sats) |-> IN_(G.sats[i])])>>,
        <<"time", IN_(Gtime(P))>>, <<"day", IN_(Gday(P))>> >>)
MsmScaledDoc(P, ctl) ==
  Ob(<< <<ToString(Gtime(P) + Gday(P) * 86400000),
       Ob((IF ctl.hdr THEN << <<"hdr", ScaledHdr(P)>> >> ELSE <<>>)
          \o (IF ctl.aux THEN << <<"aux", ScaledAux(P)>> >> ELSE <<>>)
          \o << <<"obs", ObsDoc(P)>> >>)>> >>)
=============================================================================
