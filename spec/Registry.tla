------------------------------ MODULE Registry -----------------------------
(* Extension points: sub-decoders and sub-printers announce themselves to the
   top decoder and the top printer, which dispatch to them and account for them.

   sub-decoder  [proto, sub, bare, meth, act, ret]
      proto  1 if it speaks the registration protocol at all
      sub    message subset it claims     bare  1 for bare data
      meth   1 if it implements decoding  act   numbers it implements
      ret    class of what it returns, "None", or "raise" for a failure
   sub-printer  [proto, mode, pm, cm, act, fail]
      pm cm  1 if it implements printing / closing
      act    classes it implements        fail  1 if printing is refused        *)
EXTENDS Catalog

Subsets == {"LEGO", "MSM13O", "MSM47O", "EPH", "BASE"}
Numbers(sub) == CASE sub = "LEGO" -> {}
                  [] sub = "MSM13O" -> {n \in MsmSet : MsmSub(n) <= 3}
                  [] sub = "MSM47O" -> {n \in MsmSet : MsmSub(n) > 3}
                  [] sub = "EPH" -> EphSet
                  [] sub = "BASE" -> BaseSet
ClassOf(n, bare) == SourceType(IF bare = 1 THEN "JSON-B" ELSE "JSON", n)
EphClasses == {ClassOf(n, 0) : n \in EphSet}
BaseClasses == {ClassOf(n, 0) : n \in BaseSet}
Classes(mode) == CASE mode = "MARGO" -> {"ObservablesMSM"}
                   [] mode = "JSON" -> {"ObservablesMSM", "BareObservablesMSM123", "BareObservablesMSM4567"} \cup EphClasses \cup BaseClasses
                   [] mode = "JARGO" -> EphClasses \cup BaseClasses
Formats == {"MARGO", "JSON", "JARGO"}

(* ------------------------------------------------------------- decoding side *)
DecTop0 == [tab |-> [s \in Subsets |-> 0], att |-> 0, err |-> 0]
DecOk(d) == d.proto = 1 /\ d.meth = 1 /\ d.act # <<>>
(* the latest registration of a subset is in force *)
AddDec(t, ds, k) == IF DecOk(ds[k]) THEN [t EXCEPT !.tab[ds[k].sub] = k] ELSE t
Handlers(t, ds, n) == {t.tab[s] : s \in {q \in Subsets : t.tab[q] # 0 /\ n \in Numbers(q) /\ n \in ToSet(ds[t.tab[q]].act)}}
Good(d, n) == d.ret = ClassOf(n, d.bare)
(* <<next state, sub-decoder called (0: none), what is returned>> *)
DoDec(t, ds, n) ==
  IF Handlers(t, ds, n) = {} THEN <<t, 0, "None">>
  ELSE LET k == CHOOSE q \in Handlers(t, ds, n) : TRUE
       IN IF Good(ds[k], n) THEN <<[t EXCEPT !.att = @ + 1], k, ds[k].ret>>
          ELSE <<[t EXCEPT !.att = @ + 1, !.err = @ + 1], k, "None">>

(* ------------------------------------------------------------- printing side *)
PrnTop0 == [fmt |-> FALSE, reg |-> {}, att |-> 0, err |-> 0]
SetFmt(t, f) == [t EXCEPT !.fmt = f \in Formats]
PrnOk(t, p) == t.fmt /\ p.proto = 1 /\ p.pm = 1 /\ p.cm = 1 /\ p.act # <<>>
Ready(t) == t.fmt /\ t.reg # {}
AddPrn(t, ps, k) == IF PrnOk(t, ps[k]) THEN [t EXCEPT !.reg = @ \cup {k}] ELSE t
Takers(t, ps, c) == {k \in t.reg : c \in Classes(ps[k].mode) /\ c \in ToSet(ps[k].act)}
(* printing by sub-printer k \in Takers *)
DoPrn(t, ps, k) == [t EXCEPT !.att = @ + 1, !.err = @ + ps[k].fail]
=============================================================================
