-------------------------------- MODULE Eph --------------------------------
(* Broadcast ephemeris messages.  Each layout lists, in transmission order,
   <<field, width, encoding, scaling, argument>>:
     encoding  "u" unsigned, "s" two's complement, "m" sign-magnitude
     scaling   "int" as is, "mul" times argument, "exp" times 2^-argument,
               "dec" times 10^-argument, "slot"/"hms" GLONASS special forms.
   A field named "-" is spare and never published.                             *)
EXTENDS Doc, Catalog

Layout1019 == <<
      <<"msgNum", 12, "u", "int", 1>>, <<"satNum", 6, "u", "int", 1>>, <<"weekNum", 10, "u", "int", 1>>,
      <<"URA", 4, "u", "int", 1>>, <<"L2_Codes", 2, "u", "int", 1>>, <<"i_dot", 14, "s", "exp", 43>>,
      <<"IODE", 8, "u", "int", 1>>, <<"tc", 16, "u", "mul", 16>>, <<"af2", 8, "s", "exp", 55>>,
      <<"af1", 16, "s", "exp", 43>>, <<"af0", 22, "s", "exp", 31>>, <<"IODC", 10, "u", "int", 1>>,
      <<"crs", 16, "s", "exp", 5>>, <<"delta_n", 16, "s", "exp", 43>>, <<"m0", 32, "s", "exp", 31>>,
      <<"cuc", 16, "s", "exp", 29>>, <<"e", 32, "u", "exp", 33>>, <<"cus", 16, "s", "exp", 29>>,
      <<"sqrt_a", 32, "u", "exp", 19>>, <<"te", 16, "u", "mul", 16>>, <<"cic", 16, "s", "exp", 29>>,
      <<"omega0", 32, "s", "exp", 31>>, <<"cis", 16, "s", "exp", 29>>, <<"i0", 32, "s", "exp", 31>>,
      <<"crc", 16, "s", "exp", 5>>, <<"w", 32, "s", "exp", 31>>, <<"omega_dot", 24, "s", "exp", 43>>,
      <<"TGD", 8, "s", "exp", 31>>, <<"SVH", 6, "u", "int", 1>>, <<"L2P_Data", 1, "u", "int", 1>>,
      <<"Fit", 1, "u", "int", 1>> >>
Layout1020 == <<
      <<"msgNum", 12, "u", "int", 1>>, <<"satNum", 6, "u", "int", 1>>, <<"frqSloNum", 5, "u", "slot", 0>>,
      <<"Cn", 1, "u", "int", 1>>, <<"AlmHAI", 1, "u", "int", 1>>, <<"P1", 2, "u", "int", 1>>,
      <<"tk", 12, "u", "hms", 0>>, <<"BnMSB", 1, "u", "int", 1>>, <<"P2", 1, "u", "int", 1>>,
      <<"tb", 7, "u", "mul", 900>>, <<"dotXn", 24, "m", "exp", 20>>, <<"xn", 27, "m", "exp", 11>>,
      <<"dotDotXn", 5, "m", "exp", 30>>, <<"dotYn", 24, "m", "exp", 20>>, <<"yn", 27, "m", "exp", 11>>,
      <<"dotDotYn", 5, "m", "exp", 30>>, <<"dotZn", 24, "m", "exp", 20>>, <<"zn", 27, "m", "exp", 11>>,
      <<"dotDotZn", 5, "m", "exp", 30>>, <<"P3", 1, "u", "int", 1>>, <<"gamma_n", 11, "m", "exp", 40>>,
      <<"P", 2, "u", "int", 1>>, <<"ln3", 1, "u", "int", 1>>, <<"tauN", 22, "m", "exp", 30>>,
      <<"delta_tauN", 5, "m", "exp", 30>>, <<"En", 5, "u", "int", 1>>, <<"P4", 1, "u", "int", 1>>,
      <<"Ft", 4, "u", "int", 1>>, <<"Nt", 11, "u", "int", 1>>, <<"M", 2, "u", "int", 1>>,
      <<"auxDataOK", 1, "u", "int", 1>>, <<"Na", 11, "u", "int", 1>>, <<"tauC", 32, "m", "exp", 31>>,
      <<"N4", 5, "u", "int", 1>>, <<"tauGPS", 22, "m", "exp", 30>>, <<"ln5", 1, "u", "int", 1>>,
      <<"-", 7, "u", "int", 1>> >>
Layout1041 == <<
      <<"msgNum", 12, "u", "int", 1>>, <<"satNum", 6, "u", "int", 1>>, <<"weekNum", 10, "u", "int", 1>>,
      <<"af0", 22, "s", "exp", 31>>, <<"af1", 16, "s", "exp", 43>>, <<"af2", 8, "s", "exp", 55>>,
      <<"URA", 4, "u", "int", 1>>, <<"tc", 16, "u", "mul", 16>>, <<"TGD", 8, "s", "exp", 31>>,
      <<"delta_n", 22, "s", "exp", 41>>, <<"IODEC", 8, "u", "int", 1>>, <<"-", 10, "u", "int", 1>>,
      <<"L5_Flag", 1, "u", "int", 1>>, <<"S_Flag", 1, "u", "int", 1>>, <<"cuc", 15, "s", "exp", 28>>,
      <<"cus", 15, "s", "exp", 28>>, <<"cic", 15, "s", "exp", 28>>, <<"cis", 15, "s", "exp", 28>>,
      <<"crc", 15, "s", "exp", 4>>, <<"crs", 15, "s", "exp", 4>>, <<"i_dot", 14, "s", "exp", 43>>,
      <<"m0", 32, "s", "exp", 31>>, <<"te", 16, "u", "mul", 16>>, <<"e", 32, "u", "exp", 33>>,
      <<"sqrt_a", 32, "u", "exp", 19>>, <<"omega0", 32, "s", "exp", 31>>, <<"w", 32, "s", "exp", 31>>,
      <<"omega_dot", 22, "s", "exp", 41>>, <<"i0", 32, "s", "exp", 31>>, <<"-", 4, "u", "int", 1>> >>
Layout1042 == <<
      <<"msgNum", 12, "u", "int", 1>>, <<"satNum", 6, "u", "int", 1>>, <<"weekNum", 13, "u", "int", 1>>,
      <<"URAI", 4, "u", "int", 1>>, <<"i_dot", 14, "s", "exp", 43>>, <<"AODE", 5, "u", "int", 1>>,
      <<"tc", 17, "u", "mul", 8>>, <<"af2", 11, "s", "exp", 66>>, <<"af1", 22, "s", "exp", 50>>,
      <<"af0", 24, "s", "exp", 33>>, <<"AODC", 5, "u", "int", 1>>, <<"crs", 18, "s", "exp", 6>>,
      <<"delta_n", 16, "s", "exp", 43>>, <<"m0", 32, "s", "exp", 31>>, <<"cuc", 18, "s", "exp", 31>>,
      <<"e", 32, "u", "exp", 33>>, <<"cus", 18, "s", "exp", 31>>, <<"sqrt_a", 32, "u", "exp", 19>>,
      <<"te", 17, "u", "mul", 8>>, <<"cic", 18, "s", "exp", 31>>, <<"omega0", 32, "s", "exp", 31>>,
      <<"cis", 18, "s", "exp", 31>>, <<"i0", 32, "s", "exp", 31>>, <<"crc", 18, "s", "exp", 6>>,
      <<"w", 32, "s", "exp", 31>>, <<"omega_dot", 24, "s", "exp", 43>>, <<"TGD1", 10, "s", "dec", 10>>,
      <<"TGD2", 10, "s", "dec", 10>>, <<"SVH", 1, "u", "int", 1>> >>
Layout1044 == <<
      <<"msgNum", 12, "u", "int", 1>>, <<"satNum", 4, "u", "int", 1>>, <<"tc", 16, "u", "mul", 16>>,
      <<"af2", 8, "s", "exp", 55>>, <<"af1", 16, "s", "exp", 43>>, <<"af0", 22, "s", "exp", 31>>,
      <<"IODE", 8, "u", "int", 1>>, <<"crs", 16, "s", "exp", 5>>, <<"delta_n", 16, "s", "exp", 43>>,
      <<"m0", 32, "s", "exp", 31>>, <<"cuc", 16, "s", "exp", 29>>, <<"e", 32, "u", "exp", 33>>,
      <<"cus", 16, "s", "exp", 29>>, <<"sqrt_a", 32, "u", "exp", 19>>, <<"te", 16, "u", "mul", 16>>,
      <<"cic", 16, "s", "exp", 29>>, <<"omega0", 32, "s", "exp", 31>>, <<"cis", 16, "s", "exp", 29>>,
      <<"i0", 32, "s", "exp", 31>>, <<"crc", 16, "s", "exp", 5>>, <<"w", 32, "s", "exp", 31>>,
      <<"omega_dot", 24, "s", "exp", 43>>, <<"i_dot", 14, "s", "exp", 43>>, <<"L2_Codes", 2, "u", "int", 1>>,
      <<"weekNum", 10, "u", "int", 1>>, <<"URA", 4, "u", "int", 1>>, <<"SVH", 6, "u", "int", 1>>,
      <<"TGD", 8, "s", "exp", 31>>, <<"IODC", 10, "u", "int", 1>>, <<"Fit", 1, "u", "int", 1>> >>
Layout1045 == <<
      <<"msgNum", 12, "u", "int", 1>>, <<"satNum", 6, "u", "int", 1>>, <<"weekNum", 12, "u", "int", 1>>,
      <<"IODnav", 10, "u", "int", 1>>, <<"SISA", 8, "u", "int", 1>>, <<"i_dot", 14, "s", "exp", 43>>,
      <<"tc", 14, "u", "mul", 60>>, <<"af2", 6, "s", "exp", 59>>, <<"af1", 21, "s", "exp", 46>>,
      <<"af0", 31, "s", "exp", 34>>, <<"crs", 16, "s", "exp", 5>>, <<"delta_n", 16, "s", "exp", 43>>,
      <<"m0", 32, "s", "exp", 31>>, <<"cuc", 16, "s", "exp", 29>>, <<"e", 32, "u", "exp", 33>>,
      <<"cus", 16, "s", "exp", 29>>, <<"sqrt_a", 32, "u", "exp", 19>>, <<"te", 14, "u", "mul", 60>>,
      <<"cic", 16, "s", "exp", 29>>, <<"omega0", 32, "s", "exp", 31>>, <<"cis", 16, "s", "exp", 29>>,
      <<"i0", 32, "s", "exp", 31>>, <<"crc", 16, "s", "exp", 5>>, <<"w", 32, "s", "exp", 31>>,
      <<"omega_dot", 24, "s", "exp", 43>>, <<"E5a_BGD", 10, "s", "exp", 32>>, <<"E5a_SHS", 2, "u", "int", 1>>,
      <<"E5a_DVS", 1, "u", "int", 1>>, <<"-", 7, "u", "int", 1>> >>
Layout1046 == <<
      <<"msgNum", 12, "u", "int", 1>>, <<"satNum", 6, "u", "int", 1>>, <<"weekNum", 12, "u", "int", 1>>,
      <<"IODnav", 10, "u", "int", 1>>, <<"SISA", 8, "u", "int", 1>>, <<"i_dot", 14, "s", "exp", 43>>,
      <<"tc", 14, "u", "mul", 60>>, <<"af2", 6, "s", "exp", 59>>, <<"af1", 21, "s", "exp", 46>>,
      <<"af0", 31, "s", "exp", 34>>, <<"crs", 16, "s", "exp", 5>>, <<"delta_n", 16, "s", "exp", 43>>,
      <<"m0", 32, "s", "exp", 31>>, <<"cuc", 16, "s", "exp", 29>>, <<"e", 32, "u", "exp", 33>>,
      <<"cus", 16, "s", "exp", 29>>, <<"sqrt_a", 32, "u", "exp", 19>>, <<"te", 14, "u", "mul", 60>>,
      <<"cic", 16, "s", "exp", 29>>, <<"omega0", 32, "s", "exp", 31>>, <<"cis", 16, "s", "exp", 29>>,
      <<"i0", 32, "s", "exp", 31>>, <<"crc", 16, "s", "exp", 5>>, <<"w", 32, "s", "exp", 31>>,
      <<"omega_dot", 24, "s", "exp", 43>>, <<"E5a_BGD", 10, "s", "exp", 32>>, <<"E5b_BGD", 10, "s", "exp", 32>>,
      <<"E5b_SHS", 2, "u", "int", 1>>, <<"E5b_DVS", 1, "u", "int", 1>>, <<"E1_SHS", 2, "u", "int", 1>>,
      <<"E1_DVS", 1, "u", "int", 1>>, <<"-", 2, "u", "int", 1>> >>

EphLayouts == [n \in EphSet |-> CASE n = 1019 -> Layout1019 [] n = 1020 -> Layout1020 [] n = 1041 -> Layout1041
                               [] n = 1042 -> Layout1042 [] n = 1044 -> Layout1044 [] n = 1045 -> Layout1045
                               [] n = 1046 -> Layout1046]
LayoutBits(L) == FoldLeft(LAMBDA a, f : a + f[2], 0, L)
Offsets(L) == [i \in 1..Len(L) |-> LayoutBits(SubSeq(L, 1, i - 1))]
EphBits == [n \in EphSet |-> LayoutBits(EphLayouts[n])]
EphOffsets == [n \in EphSet |-> Offsets(EphLayouts[n])]

(* trailing bytes after the defined fields are tolerated *)
EphAccept(n, P) == Len(P) >= CeilDiv8(EphBits[n])

RawZ(P, off, w, enc) == CASE enc = "u" -> UZ(P, off, w) [] enc = "s" -> SZ(P, off, w) [] enc = "m" -> MZ(P, off, w)
ScaledDoc(P, off, f) ==
  LET z == RawZ(P, off, f[2], f[3]) IN
  CASE f[4] = "int" -> I(z)
    [] f[4] = "mul" -> I(MulZ(z, FromInt(f[5])))
    [] f[4] = "exp" -> Qt(z, <<1>>, <<1>>, f[5])
    [] f[4] = "dec" -> Qt(z, <<1>>, Pow10N(f[5]), 0)
    [] f[4] = "slot" -> IN_(U(P, off, f[2]) - 7)
    [] f[4] = "hms" -> IN_(3600 * U(P, off, 5) + 60 * U(P, off + 5, 6) + 30 * U(P, off + 11, 1))
EphDoc(n, P, bare) ==
  LET L == EphLayouts[n]  O == EphOffsets[n]
      idx == SelectSeq([i \in 1..Len(L) |-> i], LAMBDA i : L[i][1] # "-")
  IN Ob([j \in 1..Len(idx) |-> LET i == idx[j] IN
         <<L[i][1], IF bare THEN I(RawZ(P, O[i], L[i][2], L[i][3])) ELSE ScaledDoc(P, O[i], L[i])>>])
=============================================================================
