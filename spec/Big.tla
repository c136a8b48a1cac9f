-------------------------------- MODULE Big --------------------------------
(* Arbitrary precision arithmetic for TLC (whose integers are 32 bit).
   A natural is a little-endian sequence of limbs in base 2^12 without
   trailing zero limbs (zero is <<>>).  A signed number is [s |-> 0|1, m |-> nat]
   (s = 1 means negative; zero may carry either sign).                        *)
EXTENDS Integers, Sequences, SequencesExt

LB == 12
B  == 4096

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN <<>>
           ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE FromNat(_)
FromNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromNat(n \div B)

FromInt(n) == IF n < 0 THEN [s |-> 1, m |-> FromNat(-n)] ELSE [s |-> 0, m |-> FromNat(n)]

(* Normalise a sequence of non-negative (31-bit) digits. *)
Carry(a) ==
  LET step(acc, x) == LET v == x + acc[2] IN <<Append(acc[1], v % B), v \div B>>
      r == FoldLeft(step, <<<<>>, 0>>, a)
  IN  Trim(r[1] \o FromNat(r[2]))

At(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
MaxI(x, y) == IF x > y THEN x ELSE y

AddN(a, b) == Carry([i \in 1..MaxI(Len(a), Len(b)) |-> At(a, i) + At(b, i)])

(* a >= b required *)
SubN(a, b) ==
  LET step(acc, i) == LET v == At(a, i) - At(b, i) - acc[2]
                      IN IF v < 0 THEN <<Append(acc[1], v + B), 1>>
                                  ELSE <<Append(acc[1], v), 0>>
  IN Trim(FoldLeft(step, <<<<>>, 0>>, [i \in 1..Len(a) |-> i])[1])

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
CmpN(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
              ELSE CmpFrom(a, b, Len(a))
LeqN(a, b) == CmpN(a, b) <= 0

RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > Len(a) THEN 0
                    ELSE (IF k - i + 1 \in 1..Len(b) THEN a[i] * b[k - i + 1] ELSE 0)
                         + Conv(a, b, k, i + 1)
MulN(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE IF b = <<1>> THEN a
              ELSE IF a = <<1>> THEN b
              ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Conv(a, b, k, 1)])

P2 == [i \in 0..30 |-> 2^i]
Pow2N(k) == [i \in 1..(k \div LB) |-> 0] \o <<P2[k % LB]>>
ShlN(a, k) == IF a = <<>> \/ k = 0 THEN a
              ELSE [i \in 1..(k \div LB) |-> 0] \o Carry([i \in 1..Len(a) |-> a[i] * P2[k % LB]])

Neg(x) == [s |-> 1 - x.s, m |-> x.m]
AddZ(x, y) == IF x.s = y.s THEN [s |-> x.s, m |-> AddN(x.m, y.m)]
              ELSE IF LeqN(y.m, x.m) THEN [s |-> x.s, m |-> SubN(x.m, y.m)]
              ELSE [s |-> y.s, m |-> SubN(y.m, x.m)]
SubZ(x, y) == AddZ(x, Neg(y))
MulZ(x, y) == [s |-> (x.s + y.s) % 2, m |-> MulN(x.m, y.m)]
EqZ(x, y) == x.m = y.m /\ (x.s = y.s \/ x.m = <<>>)
Zero == [s |-> 0, m |-> <<>>]

(* A "quantity" [n, p, q, k] is the rational  n * p / (q * 2^k) , where n is a
   signed number of resolution units, p and q naturals (limbs), k \in Nat.
   NearF: the binary float  sgn * m * 2^e  is within 1/256 of a resolution unit.
   (Every implementation in IEEE doubles is within 2^-12 of a unit.)           *)
NearF(x, fs, fm, fe) ==
  LET sh == fe + x.k
      l0 == MulN(fm, x.q)
      r0 == MulN(x.n.m, x.p)
      L  == [s |-> fs,    m |-> IF sh >= 0 THEN ShlN(l0, sh) ELSE l0]
      R  == [s |-> x.n.s, m |-> IF sh >= 0 THEN r0 ELSE ShlN(r0, -sh)]
      T  == IF sh >= 0 THEN x.p ELSE ShlN(x.p, -sh)
  IN  LeqN(ShlN(SubZ(L, R).m, 8), T)

RECURSIVE Pow10N(_)
Pow10N(d) == IF d = 0 THEN <<1>> ELSE MulN(<<10>>, Pow10N(d - 1))

(* NearD: decimal  sgn * m * 10^-d  is the quantity rounded to d decimals
   (half a unit in the last place, plus 1/64 of slack for double rounding).     *)
NearD(x, ds, dm, d) ==
  LET L == [s |-> ds,    m |-> ShlN(MulN(dm, x.q), x.k)]
      R == [s |-> x.n.s, m |-> MulN(MulN(x.n.m, x.p), Pow10N(d))]
      T == ShlN(x.q, x.k)
  IN  LeqN(ShlN(SubZ(L, R).m, 7), MulN(<<66>>, T))
=============================================================================
