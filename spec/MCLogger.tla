------------------------------ MODULE MCLogger -----------------------------
(* All sequences of up to MaxOps operations on two log files.                  *)
EXTENDS Logger, Json
CONSTANTS MaxOps, Levels
VARIABLES s, hist, disk, con
vars == <<s, hist, disk, con>>
Init == s = Off /\ hist = <<>> /\ disk = [f \in 1..2 |-> <<>>] /\ con = <<>>
Do(o, a, s2) == s' = s2 /\ hist' = Append(hist, <<o, a>>)
Log(l) == LET n == Len(hist) + 1
          IN /\ Do("log", l, s)
             /\ disk' = [f \in 1..2 |-> IF FileGets(s, l, f) THEN Append(disk[f], n) ELSE disk[f]]
             /\ con' = IF ConsoleGets(s, l) THEN Append(con, n) ELSE con
Next == /\ Len(hist) < MaxOps
        /\ \/ \E f \in 1..2 : Do("init", ToString(f), DoInit(s, f, "x")) /\ UNCHANGED <<disk, con>>
           \/ Do("deinit", "", DoDeinit(s)) /\ UNCHANGED <<disk, con>>
           \/ \E l \in Levels : Log(l)
        /\ IF Len(hist') = MaxOps THEN PrintT("GEN|" \o ToJson([h |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
(* every record lies in at most one file, at most once, in order; what is on the console is in a file *)
Once == \A i \in 1..Len(hist) : Cardinality({p \in (1..2) \X (1..Len(hist)) : p[2] <= Len(disk[p[1]]) /\ disk[p[1]][p[2]] = i}) <= 1
Ordered == \A f \in 1..2 : \A i, j \in 1..Len(disk[f]) : i < j => disk[f][i] < disk[f][j]
Kept == \A i \in 1..Len(con) : \E f \in 1..2 : con[i] \in ToSet(disk[f])
(* the file in force is the one of the last accepted set-up *)
Force == \A f \in 1..2 : \A i \in ToSet(disk[f]) : \E j \in 1..(i - 1) : hist[j] = <<"init", ToString(f)>>
         /\ \A q \in (j + 1)..(i - 1) : hist[q][1] # "deinit"
AppendOnly == [][\A f \in 1..2 : IsPrefix(disk[f], disk'[f])]_vars
=============================================================================
