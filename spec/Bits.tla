-------------------------------- MODULE Bits --------------------------------
(* Big-endian bit fields of a byte sequence; bit offsets are 0-based.          *)
EXTENDS Big, TLC

Pow2 == [i \in 0..30 |-> 2^i]

(* unsigned field of w <= 24 bits as a TLC integer; caller guarantees it is inside P *)
RECURSIVE UAcc(_, _, _, _)
UAcc(P, i, j, acc) == IF i > j THEN acc ELSE UAcc(P, i + 1, j, acc * 256 + P[i])
U(P, off, w) ==
  LET b0 == off \div 8  r == off % 8
      b1 == (off + w - 1) \div 8
      last == 8 * (b1 + 1) - (off + w)
      first == P[b0 + 1] % Pow2[8 - r]
  IN IF b0 = b1 THEN first \div Pow2[last]
     ELSE \* drop the unused low bits of the last byte before shifting it in
          UAcc(P, b0 + 2, b1, first) * Pow2[8 - last] + P[b1 + 1] \div Pow2[last]

Bit(P, off) == (P[off \div 8 + 1] \div Pow2[7 - (off % 8)]) % 2

(* unsigned field of any width as a big natural *)
UN(P, off, w) ==
  Trim(TLCEval([i \in 1..((w + 11) \div 12) |->
        LET hi == w - 12 * (i - 1)
            ww == IF hi >= 12 THEN 12 ELSE hi
        IN U(P, off + hi - ww, ww)]))

SmallS(P, off, w) == LET u == U(P, off, w) IN IF u >= Pow2[w - 1] THEN u - Pow2[w - 1] - Pow2[w - 1] ELSE u

UZ(P, off, w) == IF w <= 24 THEN FromInt(U(P, off, w)) ELSE [s |-> 0, m |-> UN(P, off, w)]
(* two's complement *)
SZ(P, off, w) ==
  IF w <= 24 THEN FromInt(SmallS(P, off, w))
  ELSE IF Bit(P, off) = 0 THEN [s |-> 0, m |-> UN(P, off, w)]
  ELSE [s |-> 1, m |-> SubN(Pow2N(w), UN(P, off, w))]
(* sign-magnitude *)
MZ(P, off, w) == [s |-> Bit(P, off), m |-> UN(P, off + 1, w - 1)]
CeilDiv8(n) == (n + 7) \div 8
=============================================================================
