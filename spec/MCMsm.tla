------------------------------- MODULE MCMsm -------------------------------
(* The cell mask of an MSM message read bit by bit.  A walker visits the
   satellite x signal grid as a receiver of the message does (all signals of
   the first satellite, then the second ...) and numbers the cells it finds;
   the direct reading used by Msm!CellObs computes satellite and signal of a
   cell from its position in the mask.  TLC checks on every mask of every grid
   up to MaxSat x MaxSgn that both attribute the same values to the same
   satellite and signal, and every completed non-empty mask is replayed into
   the real decoders.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSat, MaxSgn, MaxGrid
VARIABLES ns, ng, mask,     \* grid and the bits read so far
          sat, sgn,         \* where the walker stands
          got               \* <<satellite, signal>> of every cell found, in order
vars == <<ns, ng, mask, sat, sgn, got>>
Init == /\ ns \in 1..MaxSat /\ ng \in 1..MaxSgn /\ ns * ng <= MaxGrid
        /\ mask = <<>> /\ sat = 1 /\ sgn = 1 /\ got = <<>>
Full == Len(mask) = ns * ng
Read(b) == /\ ~Full
           /\ mask' = Append(mask, b)
           /\ got' = IF b = 1 THEN Append(got, <<sat, sgn>>) ELSE got
           /\ IF sgn = ng THEN sat' = sat + 1 /\ sgn' = 1 ELSE sat' = sat /\ sgn' = sgn + 1
           /\ UNCHANGED <<ns, ng>>
           /\ IF Len(mask') = ns * ng /\ got' # <<>>
              THEN PrintT("GEN|" \o ToJson([s |-> ns, g |-> ng, m |-> mask'])) ELSE TRUE
Next == Read(0) \/ Read(1)
Spec == Init /\ [][Next]_vars

Positions == SelectSeq([i \in 1..Len(mask) |-> i], LAMBDA i : mask[i] = 1)
Direct == [j \in 1..Len(Positions) |-> <<((Positions[j] - 1) \div ng) + 1, ((Positions[j] - 1) % ng) + 1>>]
Same == got = Direct
(* no two cells share satellite and signal, and none lies outside the grid *)
Distinct == \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
Inside == \A i \in 1..Len(got) : got[i][1] \in 1..ns /\ got[i][2] \in 1..ng
=============================================================================
