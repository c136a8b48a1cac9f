------------------------------ MODULE Catalog ------------------------------
(* The message catalogue: which RTCM 3 messages the converter understands,
   where their data go, and the signal/frequency tables.                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Modes == {"MARGO", "JSON", "JSON-B", "JARGO"}

(* ---- MSM: 1071..1077 GPS, 1081.. GLONASS, Galileo, SBAS, QZSS, BeiDou, NavIC 1131.. *)
GnssSeq == <<"G", "R", "E", "S", "Q", "B", "I">>
GnssName == [G |-> "GPS", R |-> "GLN", E |-> "GAL", S |-> "SBS", Q |-> "QZS", B |-> "BDS", I |-> "NAVIC"]
IsMsm(n) == n \in 1071..1137 /\ (n % 10) \in 1..7
MsmGnss(n) == GnssSeq[(n - 1071) \div 10 + 1]
MsmSub(n) == n % 10

EphSet  == {1019, 1020, 1041, 1042, 1044, 1045, 1046}
BaseSet == {1005, 1006, 1007, 1008, 1013, 1029, 1033, 1230}
MsmSet  == {n \in 1071..1137 : IsMsm(n)}

(* Which message numbers a mode decodes at all. *)
Supported(mode, n) == IsMsm(n) \/ (mode # "MARGO" /\ n \in (EphSet \cup BaseSet))
Bare(mode) == mode = "JSON-B"
(* Which accepted messages end up in JSON documents / MARGO tables. *)
ToJsonDoc(mode, n) == Supported(mode, n) /\ (mode \in {"JSON", "JSON-B"} \/ (mode = "JARGO" /\ ~IsMsm(n)))
ToMargo(mode, n)  == IsMsm(n) /\ mode \in {"MARGO", "JARGO"}

EphGnss(n) == CASE n = 1019 -> "GPS" [] n = 1020 -> "GLN" [] n = 1041 -> "NAVIC" [] n = 1042 -> "BDS"
                [] n = 1044 -> "QZS" [] n \in {1045, 1046} -> "GAL"
BaseName(n) == CASE n = 1005 -> "RefPoint" [] n = 1006 -> "RefPointHeight" [] n = 1007 -> "AntDesc"
                 [] n = 1008 -> "AntDescSer" [] n = 1013 -> "SysPar" [] n = 1029 -> "TextStr"
                 [] n = 1033 -> "AntAndRcvDesc" [] n = 1230 -> "GloBias"
JsonDir(n)  == IF IsMsm(n) THEN "MSM" \o ToString(MsmSub(n)) ELSE IF n \in EphSet THEN "EPH" ELSE "BASE"
JsonFile(n) == (IF IsMsm(n) THEN GnssName[MsmGnss(n)] \o "-" \o JsonDir(n)
                ELSE IF n \in EphSet THEN EphGnss(n) \o "-EPH" ELSE BaseName(n))
               \o "-" \o ToString(n) \o ".json"
JsonPath(n) == JsonDir(n) \o "/" \o JsonFile(n)
SourceType(mode, n) ==
  IF IsMsm(n) THEN (IF ~Bare(mode) THEN "ObservablesMSM"
                    ELSE IF MsmSub(n) <= 3 THEN "BareObservablesMSM123" ELSE "BareObservablesMSM4567")
  ELSE CASE n = 1019 -> "EphGPS" [] n = 1020 -> "EphGLO" [] n = 1041 -> "EphNAVIC" [] n = 1042 -> "EphBDS"
         [] n = 1044 -> "EphQZS" [] n = 1045 -> "EphGALF" [] n = 1046 -> "EphGALI"
         [] n = 1005 -> "BaseRP" [] n = 1006 -> "BaseRPH" [] n = 1007 -> "BaseAD" [] n = 1008 -> "BaseADSN"
         [] n = 1013 -> "BaseSP" [] n = 1029 -> "BaseTS" [] n = 1033 -> "BaseADSNRC" [] n = 1230 -> "BaseGLBS"

(* ---- signals: <<MSM signal id, RINEX code, carrier frequency in units of 100 Hz>> *)
L1 == 15754200  L2 == 12276000  L5 == 11764500  E6 == 12787500  E5b == 12071400  E5 == 11917950
B1 == 15610980  B3 == 12685200  NS == 24920280  G1 == 16020000  G2 == 12460000
SignalRows ==
  [G |-> << <<2,"1C",L1>>, <<3,"1P",L1>>, <<4,"1W",L1>>, <<8,"2C",L2>>, <<9,"2P",L2>>, <<10,"2W",L2>>,
            <<15,"2S",L2>>, <<16,"2L",L2>>, <<17,"2X",L2>>, <<22,"5I",L5>>, <<23,"5Q",L5>>, <<24,"5X",L5>>,
            <<30,"1S",L1>>, <<31,"1L",L1>>, <<32,"1X",L1>> >>,
   R |-> << <<2,"1C",G1>>, <<3,"1P",G1>>, <<8,"2C",G2>>, <<9,"2P",G2>> >>,
   E |-> << <<2,"1C",L1>>, <<3,"1A",L1>>, <<4,"1B",L1>>, <<5,"1X",L1>>, <<6,"1Z",L1>>,
            <<8,"6C",E6>>, <<9,"6A",E6>>, <<10,"6B",E6>>, <<11,"6X",E6>>, <<12,"6Z",E6>>,
            <<14,"7I",E5b>>, <<15,"7Q",E5b>>, <<16,"7X",E5b>>, <<18,"8I",E5>>, <<19,"8Q",E5>>, <<20,"8X",E5>>,
            <<22,"5I",L5>>, <<23,"5Q",L5>>, <<24,"5X",L5>> >>,
   S |-> << <<2,"1C",L1>>, <<22,"5I",L5>>, <<23,"5Q",L5>>, <<24,"5X",L5>> >>,
   Q |-> << <<2,"1C",L1>>, <<9,"6S",E6>>, <<10,"6L",E6>>, <<11,"6X",E6>>, <<15,"2S",L2>>, <<16,"2L",L2>>,
            <<17,"2X",L2>>, <<22,"5I",L5>>, <<23,"5Q",L5>>, <<24,"5X",L5>>, <<30,"1S",L1>>, <<31,"1L",L1>>,
            <<32,"1X",L1>> >>,
   B |-> << <<2,"2I",B1>>, <<3,"2Q",B1>>, <<4,"2X",B1>>, <<8,"6I",B3>>, <<9,"6Q",B3>>, <<10,"6X",B3>>,
            <<14,"7I",E5b>>, <<15,"7Q",E5b>>, <<16,"7X",E5b>> >>,
   I |-> << <<8,"9A",NS>>, <<22,"5A",L5>> >>]
NoSig == <<0, "", 0>>
SigTab == [g \in {"G","R","E","S","Q","B","I"} |->
            [c \in 1..32 |-> LET rows == SelectSeq(SignalRows[g], LAMBDA r : r[1] = c)
                             IN IF rows = <<>> THEN NoSig ELSE rows[1]]]
SigKnown(g, c) == SigTab[g][c] # NoSig
SigCode(g, c) == SigTab[g][c][2]
SigFreq(g, c) == SigTab[g][c][3]

(* ---- MARGO layout *)
MaxSats == [G |-> 32, R |-> 24, E |-> 36, S |-> 38, Q |-> 5, B |-> 37, I |-> 14]
MargoType == [C |-> 0, L |-> 1, D |-> 2, S |-> 3, T |-> 4, A |-> 5]
MargoWidth == [C |-> 15, L |-> 15, D |-> 15, S |-> 15, T |-> 10, A |-> 4]
MargoFrac == [C |-> 3, L |-> 4, D |-> 3, S |-> 2, T |-> 3, A |-> 0]
MargoPath(g, par, sig, sub) == GnssName[g] \o "/" \o g \o par \o sig \o "_MSM" \o ToString(sub) \o ".obs"
=============================================================================
