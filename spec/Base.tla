-------------------------------- MODULE Base --------------------------------
(* Reference-station messages 1005-1008, 1013, 1029, 1033, 1230.               *)
EXTENDS Doc, Catalog

Byte(P, i) == P[i + 1]                      \* 0-based byte access

(* ---- UTF-8 validity (RFC 3629: no overlongs, no surrogates, <= U+10FFFF) *)
Cont(b) == b \in 128..191
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET a == s[i]
           c(j) == i + j <= Len(s) /\ Cont(s[i + j])
       IN IF a < 128 THEN Utf8From(s, i + 1)
          ELSE IF a \in 194..223 THEN c(1) /\ Utf8From(s, i + 2)
          ELSE IF a \in 224..239 THEN
               /\ c(1) /\ c(2)
               /\ (a = 224 => s[i + 1] >= 160) /\ (a = 237 => s[i + 1] <= 159)
               /\ Utf8From(s, i + 3)
          ELSE IF a \in 240..244 THEN
               /\ c(1) /\ c(2) /\ c(3)
               /\ (a = 240 => s[i + 1] >= 144) /\ (a = 244 => s[i + 1] <= 143)
               /\ Utf8From(s, i + 4)
          ELSE FALSE
Utf8(s) == Utf8From(s, 1)

(* ---- counted strings: list of <<offset of first char, length>>, in order;
   `pos` is the offset of the first length byte, `gap` the index of the string
   after which one extra byte (the antenna set-up id) is inserted.             *)
RECURSIVE Strings(_, _, _, _, _)
Strings(P, pos, n, gap, acc) ==
  IF n = 0 THEN [ok |-> pos = Len(P), l |-> acc]
  ELSE IF pos >= Len(P) THEN [ok |-> FALSE, l |-> acc]
  ELSE LET k == Byte(P, pos)
           nxt == pos + 1 + k + (IF Len(acc) + 1 = gap THEN 1 ELSE 0)
       IN IF nxt > Len(P) THEN [ok |-> FALSE, l |-> acc]
          ELSE Strings(P, nxt, n - 1, gap, Append(acc, <<pos + 1, k>>))
NStr(n) == CASE n = 1007 -> 1 [] n = 1008 -> 2 [] n = 1033 -> 5
StrOf(P, d) == SubSeq(P, d[1] + 1, d[1] + d[2])

Hex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexByte(b) == "0x" \o (IF b < 16 THEN Hex[b + 1] ELSE Hex[(b \div 16) + 1] \o Hex[(b % 16) + 1])
HexStr(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN HexByte(b) ELSE a \o " " \o HexByte(b), "", s)
(* bare output lists the code units in hexadecimal, scaled output is the text itself *)
StrDoc(s, bare) == IF bare THEN St(HexStr(s)) ELSE By(s)

(* 1013: 12 num, 12 id, 16 mjd, 17 sec, 5 Nm, 8 leap = 70 bits, then 29 bits per announcement *)
SpNm(P) == U(P, 57, 5)
SpCount(P) == IF SpNm(P) # 0 THEN SpNm(P) ELSE (8 * Len(P) - 70) \div 29
GlbsFlags(P) == U(P, 28, 4)
GlbsCount(P) == Bit(P, 28) + Bit(P, 29) + Bit(P, 30) + Bit(P, 31)

BaseAccept(n, P) ==
  CASE n = 1005 -> Len(P) = 19
    [] n = 1006 -> Len(P) = 21
    [] n \in {1007, 1008, 1033} -> Len(P) >= 3 /\ Strings(P, 3, NStr(n), 1, <<>>).ok
    [] n = 1013 -> Len(P) >= 9 /\ Len(P) = CeilDiv8(70 + 29 * SpCount(P))
    [] n = 1029 -> Len(P) >= 9 /\ Len(P) = 9 + Byte(P, 8)
    [] n = 1230 -> Len(P) >= 4 /\ Len(P) = 4 + 2 * GlbsCount(P)
(* text in the scaled output must be valid UTF-8 *)
BaseTextOk(n, P) ==
  CASE n \in {1007, 1008, 1033} -> LET L == Strings(P, 3, NStr(n), 1, <<>>).l
                                   IN \A i \in 1..Len(L) : Utf8(StrOf(P, L[i]))
    [] n = 1029 -> Utf8(SubSeq(P, 10, Len(P)))
    [] OTHER -> TRUE

Flag(P, off, bare) == IF bare THEN IN_(Bit(P, off)) ELSE Bo(Bit(P, off) = 1)
Coord(P, off, bare) == IF bare THEN I(SZ(P, off, 38)) ELSE Qt(SZ(P, off, 38), <<1>>, FromNat(10000), 0)
QcText == <<"UNDEF", "CORRECTED", "NOT CORRECTED", "RESERVED">>
Ident(P) == << <<"msgNum", IN_(U(P, 0, 12))>>, <<"bsID", IN_(U(P, 12, 12))>> >>
RefPoint(P, bare) ==
  Ident(P) \o
  << <<"ITRF_Year", IN_(U(P, 24, 6))>>, <<"GPS_OK", Flag(P, 30, bare)>>, <<"GLO_OK", Flag(P, 31, bare)>>,
     <<"GAL_OK", Flag(P, 32, bare)>>, <<"isVirtual", Flag(P, 33, bare)>>, <<"refPoint_X", Coord(P, 34, bare)>>,
     <<"singleOsc", Flag(P, 72, bare)>>, <<"refPoint_Y", Coord(P, 74, bare)>>,
     <<"QC_bias", IF bare THEN IN_(U(P, 112, 2)) ELSE St(QcText[U(P, 112, 2) + 1])>>,
     <<"refPoint_Z", Coord(P, 114, bare)>> >>
AntDesc(n, P, bare) ==
  LET L == Strings(P, 3, NStr(n), 1, <<>>).l
      s(i) == StrDoc(StrOf(P, L[i]), bare)
      c(i) == IN_(L[i][2])
  IN Ident(P) \o << <<"descrLength", c(1)>>, <<"descr", s(1)>>, <<"setupID", IN_(Byte(P, L[1][1] + L[1][2]))>> >>
     \o (IF n # 1007 THEN << <<"serialNumberLength", c(2)>>, <<"serialNumber", s(2)>> >> ELSE <<>>)
     \o (IF n = 1033 THEN << <<"rcvDescriptorLength", c(3)>>, <<"rcvDescriptor", s(3)>>,
                             <<"rcvFWVersionLength", c(4)>>, <<"rcvFWVersion", s(4)>>,
                             <<"rcvSerNumLength", c(5)>>, <<"rcvSerNum", s(5)>> >> ELSE <<>>)
Announce(P, i, bare) ==
  LET o == 70 + 29 * (i - 1) IN
  <<ToString(U(P, o, 12)),
    Ar(<<Flag(P, o + 12, bare), IF bare THEN IN_(U(P, o + 13, 16)) ELSE Qt(FromInt(U(P, o + 13, 16)), <<1>>, <<10>>, 0)>>)>>
(* a later announcement of the same message id replaces the earlier one *)
Schedule(P, bare) ==
  LET n == SpCount(P)
      A == [i \in 1..n |-> Announce(P, i, bare)]
      idx == SelectSeq([i \in 1..n |-> i], LAMBDA i : \A j \in (i + 1)..n : A[j][1] # A[i][1])
  IN Ob([j \in 1..Len(idx) |-> A[idx[j]]])
SysPar(P, bare) ==
  Ident(P) \o << <<"modifiedJulianDay", IN_(U(P, 24, 16))>>, <<"daySec", IN_(U(P, 40, 17))>>, <<"Nm", IN_(SpNm(P))>>,
                <<"leapSec", IN_(U(P, 62, 8))>>, <<"shedule", Schedule(P, bare)>> >>
TextStr(P, bare) ==
  Ident(P) \o << <<"modifiedJulianDay", IN_(U(P, 24, 16))>>, <<"daySec", IN_(U(P, 40, 17))>>, <<"charNum", IN_(U(P, 57, 7))>>,
                <<"unitsNum", IN_(U(P, 64, 8))>>, <<"message", StrDoc(SubSeq(P, 10, Len(P)), bare)>> >>
BiasNames == <<"1C", "1P", "2C", "2P">>
GloBias(P, bare) ==
  LET before(i) == IF i = 1 THEN 0 ELSE IF i = 2 THEN Bit(P, 28) ELSE IF i = 3 THEN Bit(P, 28) + Bit(P, 29)
                   ELSE Bit(P, 28) + Bit(P, 29) + Bit(P, 30)
      z(i) == IF Bit(P, 27 + i) = 1 THEN SZ(P, 32 + 16 * before(i), 16) ELSE Zero
  IN Ident(P) \o << <<"isCorrected", Flag(P, 24, bare)>>,
       <<"validity", Ob([i \in 1..4 |-> <<BiasNames[i], Flag(P, 27 + i, bare)>>])>>,
       <<"correction", Ob([i \in 1..4 |-> <<BiasNames[i], IF bare THEN I(z(i)) ELSE Qt(z(i), <<1>>, <<50>>, 0)>>])>> >>

BaseDoc(n, P, bare) ==
  Ob(CASE n = 1005 -> RefPoint(P, bare)
       [] n = 1006 -> RefPoint(P, bare) \o << <<"height", IF bare THEN IN_(U(P, 152, 16)) ELSE Qt(FromInt(U(P, 152, 16)), <<1>>, FromNat(10000), 0)>> >>
       [] n \in {1007, 1008, 1033} -> AntDesc(n, P, bare)
       [] n = 1013 -> SysPar(P, bare)
       [] n = 1029 -> TextStr(P, bare)
       [] n = 1230 -> GloBias(P, bare))
=============================================================================
