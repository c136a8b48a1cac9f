----------------------------- MODULE MCRegistry ----------------------------
(* All sequences of registrations and uses up to MaxOps operations.            *)
EXTENDS Registry, Json
CONSTANTS MaxOps, Side
D(p, s, b, m, a, r) == [proto |-> p, sub |-> s, bare |-> b, meth |-> m, act |-> a, ret |-> r]
Decs == << D(1, "EPH", 0, 1, <<1019>>, "EphGPS"), D(1, "EPH", 0, 1, <<1019, 1020>>, "EphGLO"), D(1, "EPH", 1, 1, <<1019, 1005>>, "raise"),
           D(1, "BASE", 0, 1, <<1005, 1019>>, "BaseRP"), D(1, "BASE", 0, 0, <<1005>>, "BaseRP"), D(1, "BASE", 0, 1, <<>>, "BaseRP"),
           D(0, "EPH", 0, 1, <<1019>>, "EphGPS"), D(1, "MSM47O", 1, 1, <<1074, 1073>>, "BareObservablesMSM4567"),
           D(1, "MSM13O", 0, 1, <<1073>>, "None"), D(1, "LEGO", 0, 1, <<1004>>, "ObservablesMSM") >>
Nums == {1019, 1020, 1005, 1074, 1073, 1004}
P(p, m, a, b, s, f) == [proto |-> p, mode |-> m, pm |-> a, cm |-> b, act |-> s, fail |-> f]
Prns == << P(1, "JSON", 1, 1, <<"EphGPS", "ObservablesMSM">>, 0), P(1, "JARGO", 1, 1, <<"EphGLO", "ObservablesMSM">>, 0),
           P(1, "MARGO", 1, 1, <<"ObservablesMSM", "EphGLO">>, 1), P(1, "JSON", 0, 1, <<"EphGPS">>, 0), P(1, "JSON", 1, 0, <<"EphGPS">>, 0),
           P(1, "JSON", 1, 1, <<>>, 0), P(0, "JSON", 1, 1, <<"EphGPS">>, 0), P(1, "JARGO", 1, 1, <<"BaseRP", "EphGPS">>, 1) >>
Cls == {"EphGPS", "EphGLO", "ObservablesMSM", "BaseRP"}
VARIABLES t, hist, lastd
vars == <<t, hist, lastd>>
Init == hist = <<>> /\ lastd = <<0, "None">> /\ t = IF Side = "dec" THEN DecTop0 ELSE PrnTop0
Do(o, a, t2, l) == t' = t2 /\ hist' = Append(hist, <<o, a>>) /\ lastd' = l
Next == /\ Len(hist) < MaxOps
        /\ IF Side = "dec"
           THEN \/ \E k \in 1..Len(Decs) : Do("reg", ToString(k), AddDec(t, Decs, k), <<0, "None">>)
                \/ \E n \in Nums : LET x == DoDec(t, Decs, n) IN Do("dec", ToString(n), x[1], <<x[2], x[3]>>)
           ELSE \/ \E f \in {"JSON", "XML"} : Do("fmt", f, SetFmt(t, f), <<0, "None">>)
                \/ \E k \in 1..Len(Prns) : Do("reg", ToString(k), AddPrn(t, Prns, k), <<0, "None">>)
                \/ \E c \in Cls : IF Takers(t, Prns, c) = {} THEN Do("prn", c, t, <<0, "None">>)
                                  ELSE \E k \in Takers(t, Prns, c) : Do("prn", c, DoPrn(t, Prns, k), <<k, "None">>)
        /\ IF Len(hist') = MaxOps THEN PrintT("GEN|" \o ToJson([side |-> Side, h |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
(* a message is handled by a decoder that claims and implements it, and only complete parts are ever called *)
Complete == IF Side = "dec" THEN \A s \in Subsets : t.tab[s] # 0 => DecOk(Decs[t.tab[s]]) /\ Decs[t.tab[s]].sub = s
            ELSE \A k \in t.reg : Prns[k].pm = 1 /\ Prns[k].cm = 1 /\ Prns[k].act # <<>>
Single == Side = "dec" => \A n \in Nums : Cardinality(Handlers(t, Decs, n)) <= 1
Sums == t.err <= t.att /\ t.att <= Len(SelectSeq(hist, LAMBDA e : e[1] \in {"dec", "prn"}))
Typed == Side = "dec" /\ lastd[2] # "None" => LET n == hist[Len(hist)][2] IN \E m \in Nums : ToString(m) = n /\ lastd[2] = ClassOf(m, Decs[lastd[1]].bare)
=============================================================================
