------------------------------- MODULE TBits -------------------------------
(* Validation of recorded bit-field accesses.  A call is
   [f, b, p, n, ok, s, r]: function, buffer, position, width, 1 if a value was
   returned / 0 if the access was refused / -1 for any other outcome, sign and
   magnitude (17 bytes) of the value.                                          *)
EXTENDS Bits, SequencesExt, FiniteSets, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, bad
vars == <<r, bad>>
MaxWidth == 128
Inside(q) == q.n \in 1..MaxWidth /\ q.p >= 0 /\ q.p + q.n <= 8 * Len(q.b)
Value(q) == [s |-> q.s, m |-> UN(q.r, 0, 8 * Len(q.r))]
(* bit reversal: bits p .. p+n-1 (counted from the least significant one) of the number b *)
NumBit(X, i) == IF i >= 8 * Len(X) THEN 0 ELSE Bit(X, 8 * Len(X) - 1 - i)
Rev(q) == FoldLeft(LAMBDA acc, i : AddN(ShlN(acc, 1), FromNat(NumBit(q.b, q.p + i))), <<>>, [i \in 1..q.n |-> i - 1])
SRev(q) == IF NumBit(q.b, q.p) = 0 THEN [s |-> 0, m |-> Rev(q)] ELSE [s |-> 1, m |-> SubN(Pow2N(q.n), Rev(q))]
Want(q) == CASE q.f = "u" -> UZ(q.b, q.p, q.n)
             [] q.f = "s" -> SZ(q.b, q.p, q.n)
             [] q.f = "ru" -> [s |-> 0, m |-> Rev(q)]
             [] q.f = "rs" -> SRev(q)
Allowed(q) == IF q.f \in {"u", "s"} THEN Inside(q) ELSE q.p + q.n <= MaxWidth
CallBad(q) == IF Allowed(q) THEN (IF q.ok # 1 THEN { <<"bits.refused." \o q.f, ToString(<<q.p, q.n>>)>> }
                                  ELSE IF Value(q) # Want(q) THEN { <<"bits.value." \o q.f, ToString(<<q.p, q.n>>)>> } ELSE {})
              ELSE IF q.ok # 0 THEN { <<"bits.range." \o q.f, ToString(<<q.p, q.n>>)>> } ELSE {}
TInit == r \in 1..Len(Runs) /\ bad = {<<"", "">>}
TNext == /\ bad = {<<"", "">>} /\ r' = r
         /\ bad' = UNION {CallBad(Runs[r].calls[k]) : k \in 1..Len(Runs[r].calls)}
         /\ PrintT("VERDICT|" \o Runs[r].id \o "|" \o ToString(Len(Runs[r].calls)) \o "|0|0|0|" \o ToString(Cardinality(bad')))
         /\ \A b \in bad' : PrintT("BAD|" \o Runs[r].id \o "|" \o b[1] \o "|" \o b[2])
TSpec == TInit /\ [][TNext]_vars
=============================================================================
