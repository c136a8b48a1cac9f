------------------------------- MODULE Rtcm3 -------------------------------
(* The RTCM 3 transport layer as an instance of Framer:
   0xD3, 6 zero bits, 10-bit payload length, payload, CRC-24Q.                 *)
EXTENDS Bits, Crc24q

RCandidate(S, av, p) == S[p + 1] = 211 /\ (p + 1 < av => S[p + 2] < 4)
RFrameLen(S, p) == (S[p + 2] % 4) * 256 + S[p + 3] + 6
RCheckOk(S, p, n) == CrcOk(SubSeq(S, p + 1, p + n))
FR == INSTANCE Framer WITH Candidate <- RCandidate, MinLen <- 6, FrameLen <- RFrameLen, CheckOk <- RCheckOk

Frame(payload) == LET h == <<211, Len(payload) \div 256, Len(payload) % 256>> \o payload IN h \o CrcBytes(h)
FrameAt(S, d) == SubSeq(S, d[1] + 1, d[1] + d[2])
FrameNum(F) == U(F, 24, 12)
Payload(F) == SubSeq(F, 4, Len(F) - 3)
=============================================================================
