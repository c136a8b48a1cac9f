------------------------------- MODULE MCCli -------------------------------
(* All command lines of up to MaxOpt options with the sources before, between
   or after them (contiguous), read word by word.                              *)
EXTENDS Cli, TLC, Json, FiniteSets
CONSTANTS MaxOpt
VARIABLES words, c
vars == <<words, c>>
W(k, v) == [k |-> k, v |-> v]
Opts == {W("o", "MARGO"), W("o", "JSON"), W("o", "JSON-B"), W("o", "JARGO"), W("i", "A"), W("i", "B"), W("i", "gone"),
         W("ext", "bin"), W("ext", "rtcm3"), W("bad", ""), W("unk", ""), W("ver", ""), W("help", "")}
Tail_ == {W("cut", "o"), W("cut", "i"), W("cut", "ext")}
NOpt == Cardinality({j \in 1..Len(words) : words[j].k # "src"})
Has == \E j \in 1..Len(words) : words[j].k = "src"
Shut == words # <<>> /\ words[Len(words)].k = "cut"
Init == words = <<>> /\ c = CliInit
Add(w) == words' = Append(words, w) /\ c' = Word(c, w)
Next == /\ ~Shut
        /\ \/ NOpt < MaxOpt /\ \E w \in Opts \cup Tail_ : Add(w)
           \/ ~Has /\ Add(W("src", ""))
        /\ PrintT("GEN|" \o ToJson([w |-> words']))
Spec == Init /\ [][Next]_vars
Folded == Finish(c) = Cli(words)
(* the last value given counts, unless the line is refused *)
LastOf(k, d) == LET S == SelectSeq(words, LAMBDA w : w.k = k) IN IF S = <<>> THEN d ELSE S[Len(S)].v
LastWins == Finish(c).end = "run" => c.fmt = LastOf("o", "MARGO") /\ c.ini = LastOf("i", "") /\ c.ext = LastOf("ext", "rtcm3")
Refuses == ({"bad", "unk", "cut", "ver", "help"} \cap {words[j].k : j \in 1..Len(words)} # {} \/ ~Has) => Finish(c).end # "run"
Decided == [][c.end # "" => c'.end = c.end]_vars
=============================================================================
