------------------------------- MODULE Crc24q -------------------------------
(* CRC-24Q (polynomial 0x1864CFB, zero initial value, no reflection), derived
   from the polynomial - no table is copied from the implementation.  The
   register is a triple of bytes.  No RECURSIVE operator is used, so that TLC
   treats the tables as constants and evaluates them once.                     *)
EXTENDS Integers, Sequences, SequencesExt

XB(a, b, p) == (((a \div p) + (b \div p)) % 2) * p
Xor4 == [a \in 0..15 |-> [b \in 0..15 |-> XB(a, b, 1) + XB(a, b, 2) + XB(a, b, 4) + XB(a, b, 8)]]
Xor8 == [a \in 0..255 |-> [b \in 0..255 |-> 16 * Xor4[a \div 16][b \div 16] + Xor4[a % 16][b % 16]]]

Poly == <<134, 76, 251>>            \* 0x864CFB, the leading x^24 is implicit
Shift1(c) ==
  LET d == <<((c[1] * 2) % 256) + (c[2] \div 128), ((c[2] * 2) % 256) + (c[3] \div 128), (c[3] * 2) % 256>>
  IN IF c[1] >= 128 THEN <<Xor8[d[1]][Poly[1]], Xor8[d[2]][Poly[2]], Xor8[d[3]][Poly[3]]>> ELSE d
CrcTab == [b \in 0..255 |-> Shift1(Shift1(Shift1(Shift1(Shift1(Shift1(Shift1(Shift1(<<b, 0, 0>>))))))))]

CrcStep(c, b) == LET t == CrcTab[Xor8[c[1]][b]] IN <<Xor8[c[2]][t[1]], Xor8[c[3]][t[2]], t[3]>>
CrcBytes(bytes) == FoldLeft(CrcStep, <<0, 0, 0>>, bytes)
CrcOk(frame) == CrcBytes(frame) = <<0, 0, 0>>    \* over a frame incl. its CRC field
=============================================================================
