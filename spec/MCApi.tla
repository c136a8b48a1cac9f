------------------------------- MODULE MCApi -------------------------------
(* Converters used as a library: several of them live in one process, they are
   created at any time, their operations interleave freely, and a decoded data block may be printed at
   once, later, in another order, more than once or not at all.

   Decoding allocates a block on a common heap; printing appends what the block
   holds at the time of printing.  TLC checks that the products of a converter
   are a function of its own decoding and printing history alone; every complete
   schedule is replayed into the real code.                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS NConv, NMsg, MaxPrint
Conv_ == 1..NConv
VARIABLES heap,   \* blocks allocated so far: what each of them holds
          held,   \* converter -> blocks it decoded, in order
          out,    \* converter -> what it has published
          made,   \* converter -> created?
          rel,    \* converter -> released?
          hist    \* schedule
vars == <<heap, held, out, made, rel, hist>>
Content(c, k) == <<c, k>>           \* what message k of converter c says
Init == /\ heap = <<>> /\ hist = <<>>
        /\ held = [c \in Conv_ |-> <<>>] /\ out = [c \in Conv_ |-> <<>>] /\ rel = [c \in Conv_ |-> FALSE] /\ made = [c \in Conv_ |-> FALSE]
New(c) == /\ ~made[c]
          /\ made' = [made EXCEPT ![c] = TRUE]
          /\ hist' = Append(hist, <<"n", c, 0>>)
          /\ UNCHANGED <<heap, held, out, rel>>
Dec(c) == /\ made[c] /\ ~rel[c] /\ Len(held[c]) < NMsg
          /\ heap' = Append(heap, Content(c, Len(held[c]) + 1))
          /\ held' = [held EXCEPT ![c] = Append(@, Len(heap) + 1)]
          /\ hist' = Append(hist, <<"d", c, Len(held[c]) + 1>>)
          /\ UNCHANGED <<out, made, rel>>
Prn(c, k) == /\ ~rel[c] /\ k \in 1..Len(held[c]) /\ Len(out[c]) < MaxPrint
             /\ out' = [out EXCEPT ![c] = Append(@, heap[held[c][k]])]
             /\ hist' = Append(hist, <<"p", c, k>>)
             /\ UNCHANGED <<heap, held, made, rel>>
Rel(c) == /\ ~rel[c] /\ Len(held[c]) = NMsg
          /\ rel' = [rel EXCEPT ![c] = TRUE]
          /\ hist' = Append(hist, <<"r", c, 0>>)
          /\ UNCHANGED <<heap, held, out, made>>
Next == /\ \E c \in Conv_ : New(c) \/ Dec(c) \/ Rel(c) \/ \E k \in 1..NMsg : Prn(c, k)
        /\ IF \A c \in Conv_ : rel'[c] THEN PrintT("GEN|" \o ToJson([h |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

Prints(c) == SelectSeq(hist, LAMBDA e : e[1] = "p" /\ e[2] = c)
OwnHistory == \A c \in Conv_ : out[c] = [i \in 1..Len(Prints(c)) |-> Content(c, Prints(c)[i][3])]
NoSharing == \A c, d \in Conv_ : c # d => ToSet(held[c]) \cap ToSet(held[d]) = {}
Frozen == [][\A b \in 1..Len(heap) : heap'[b] = heap[b]]_vars
Untouched == [][\A c \in Conv_ : made[c] /\ hist'[Len(hist')][2] # c => held'[c] = held[c] /\ out'[c] = out[c] /\ rel'[c] = rel[c]]_vars
Quiet == [][\A c \in Conv_ : rel[c] => out'[c] = out[c]]_vars
=============================================================================
