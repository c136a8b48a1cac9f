------------------------------- MODULE TClass ------------------------------
(* Validation of recorded classifications of message numbers, signals and codes.
   num rows: [n, all, msm, leg, eph] with <<system, subset>> each;
   sig rows: [g, c, lit, frq] RINEX code ("" if none) and carrier frequency in
             100 Hz (0 if there is none, -1 if it is no multiple of 100 Hz);
   clk rows: [c, steer, ext].                                                  *)
EXTENDS Catalog, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, bad
vars == <<r, bad>>
Nowhere == <<"", "">>
MsmOf(n) == IF IsMsm(n) THEN <<MsmGnss(n), "MSM" \o ToString(MsmSub(n))>> ELSE Nowhere
LegOf(n) == IF n \in 1001..1004 THEN <<"G", "LEG" \o ToString(n - 1000)>> ELSE IF n \in 1009..1012 THEN <<"R", "LEG" \o ToString(n - 1008)>> ELSE Nowhere
EphOf(n) == IF n \in EphSet THEN <<CASE n = 1019 -> "G" [] n = 1020 -> "R" [] n = 1041 -> "I" [] n = 1042 -> "B" [] n = 1044 -> "Q" [] n \in {1045, 1046} -> "E", "EPH">> ELSE Nowhere
AllOf(n) == IF MsmOf(n) # Nowhere THEN MsmOf(n) ELSE IF LegOf(n) # Nowhere THEN LegOf(n) ELSE EphOf(n)
Say(c, ok, x) == IF ok THEN {} ELSE { <<"cls." \o c, ToString(x)>> }
NumBad(q) == Say("all", q.all = AllOf(q.n), q.n) \cup Say("msm", q.msm = MsmOf(q.n), q.n) \cup Say("leg", q.leg = LegOf(q.n), q.n) \cup Say("eph", q.eph = EphOf(q.n), q.n)
SigBad(q) == IF q.g \in DOMAIN SigTab /\ q.c \in 1..32 /\ SigKnown(q.g, q.c)
             THEN Say("sig", q.lit = SigCode(q.g, q.c), q.g \o ToString(q.c)) \cup Say("frq", q.frq = SigFreq(q.g, q.c), q.g \o ToString(q.c))
             ELSE Say("sig", q.lit = "", q.g \o ToString(q.c))
Steer(c) == CASE c = 0 -> "OFF" [] c = 1 -> "ON" [] OTHER -> "UNDEF"
Ext(c) == CASE c = 0 -> "INTERNAL" [] c = 1 -> "EXT-LOCK" [] c = 2 -> "EXT-UNLOCK" [] OTHER -> "UNDEF"
ClkBad(q) == Say("clk", q.steer = Steer(q.c) /\ q.ext = Ext(q.c), q.c)
RowBad(q) == CASE q.k = "num" -> NumBad(q) [] q.k = "sig" -> SigBad(q) [] q.k = "clk" -> ClkBad(q)
TInit == r \in 1..Len(Runs) /\ bad = {<<"", "">>}
TNext == /\ bad = {<<"", "">>} /\ r' = r
         /\ bad' = UNION {RowBad(Runs[r].rows[k]) : k \in 1..Len(Runs[r].rows)}
         /\ PrintT("VERDICT|" \o Runs[r].id \o "|" \o ToString(Len(Runs[r].rows)) \o "|0|0|0|" \o ToString(Cardinality(bad')))
         /\ \A b \in bad' : PrintT("BAD|" \o Runs[r].id \o "|" \o b[1] \o "|" \o b[2])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
