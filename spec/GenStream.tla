----------------------------- MODULE GenStream -----------------------------
(* Enumerates abstract byte streams: sequences of stream elements together with
   a way of cutting the stream into chunks.  Every enumerated behaviour is
   printed, made concrete by the harness and replayed into the real code.
     good    short well-formed frame          known   supported message
     max     frame of the maximum length      zero    frame with empty payload
     nest    frame whose payload is a frame   noise   bytes without a preamble
     pre     preambles with reserved bits set flip    frame with a flipped payload bit
     crc     frame with a wrong checksum      hide    broken frame wrapped around a good one
     long    false header announcing 1023     trunc   beginning of a frame
     resv    frame with reserved bits set     lone    a lone preamble byte
     dbl     preamble byte directly before a frame                             *)
EXTENDS Sequences, TLC, Json, Integers
CONSTANTS Tokens, Cuts, MaxTok
VARIABLES seq, cut
Init == seq = <<>> /\ cut \in Cuts
Next == /\ Len(seq) < MaxTok
        /\ \E t \in Tokens : seq' = Append(seq, t)
        /\ UNCHANGED cut
        /\ PrintT("GEN|" \o ToJson([t |-> seq', c |-> cut]))
Spec == Init /\ [][Next]_<<seq, cut>>
=============================================================================
