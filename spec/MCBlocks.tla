------------------------------ MODULE MCBlocks -----------------------------
(* All sequences of up to MaxOps operations on up to MaxObj blocks.            *)
EXTENDS Blocks, Json
CONSTANTS MaxOps, MaxObj
VARIABLES s, hist
vars == <<s, hist>>
Init == s = <<>> /\ hist = <<>>
Step(o, a, s2) == s' = s2 /\ hist' = Append(hist, <<o, ToString(a)>>)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E c \in {"Attributes", "ObservablesMSM"} : Len(s) < MaxObj /\ Step("new", IF c = "Attributes" THEN 1 ELSE 0, New(s, c, 0))
           \/ \E i \in 1..Len(s) : Step("fill", i, Write(s, i, Len(hist) + 1))
           \/ \E i \in 1..Len(s) : Clearable(s[i].c) /\ Step("clear", i, Clear(s, i, 0))
        /\ IF Len(hist') = MaxOps THEN PrintT("GEN|" \o ToJson([h |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
(* what is written stays until that block is written or cleared; no two blocks hold the same writing *)
Own == \A i, j \in 1..Len(s) : i # j /\ s[i].v # 0 => s[i].v # s[j].v
Holds == \A i \in 1..Len(s) : s[i].v # 0 => hist[s[i].v] = <<"fill", ToString(i)>>
Others == [][\E i \in 1..Len(s') : \A j \in 1..Len(s) : j # i => s'[j] = s[j]]_vars
=============================================================================
