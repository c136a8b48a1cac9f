------------------------------- MODULE Framer -------------------------------
(* Extraction of frames from a byte stream that arrives in arbitrary chunks.

   The stream is a sequence S (1-based); positions are 0-based offsets.  The
   framer state is
      pos    offset of the first byte not yet disposed of
      got    TRUE once a frame has been delivered
      dirty  TRUE if bytes were skipped since the last delivery
      gaps   number of interruptions between consecutive delivered frames
   Feed(S, av, f) lets the framer work with the first `av` bytes of S visible
   and returns the new state together with the frames delivered by this call. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANTS Candidate(_, _, _),   \* S, av, p : could a frame start at p, given av visible bytes?
          MinLen,               \* bytes needed before the length can be evaluated
          FrameLen(_, _),       \* S, p : total length announced at p
          CheckOk(_, _, _)      \* S, p, n : does the frame's checksum match?

FramerInit == [pos |-> 0, got |-> FALSE, dirty |-> FALSE, gaps |-> 0]

(* One position is examined at a time: bytes inside a delivered frame are passed
   over, an incomplete candidate makes the framer wait, anything else that is
   not a frame is skipped.                                                      *)
Look(S, av, a, p) ==
  IF a.wait \/ p < a.f.pos THEN a
  ELSE IF ~Candidate(S, av, p) THEN [a EXCEPT !.f.pos = p + 1, !.f.dirty = TRUE]
  ELSE IF av - p < MinLen THEN [a EXCEPT !.wait = TRUE]
  ELSE LET n == FrameLen(S, p) IN
       IF p + n > av THEN [a EXCEPT !.wait = TRUE]
       ELSE IF CheckOk(S, p, n)
            THEN [wait |-> FALSE, out |-> Append(a.out, <<p, n>>),
                  f |-> [pos |-> p + n, got |-> TRUE, dirty |-> FALSE,
                         gaps |-> a.f.gaps + (IF a.f.got /\ a.f.dirty THEN 1 ELSE 0)]]
            ELSE [a EXCEPT !.f.pos = p + 1, !.f.dirty = TRUE]
Feed(S, av, f) ==
  LET r == FoldLeft(LAMBDA a, p : Look(S, av, a, p), [f |-> f, out |-> <<>>, wait |-> FALSE],
                    [i \in 1..(av - f.pos) |-> f.pos + i - 1])
  IN [f |-> r.f, out |-> r.out]

(* ------------------ declarative reading of the same contract ------------- *)
Whole(S, av, p) == /\ p + MinLen <= av /\ Candidate(S, av, p)
                   /\ p + FrameLen(S, p) <= av /\ CheckOk(S, p, FrameLen(S, p))
Inside(p, out) == \E i \in 1..Len(out) : out[i][1] <= p /\ p < out[i][1] + out[i][2]
(* a candidate whose announced end has not arrived yet *)
Pending(S, av, p) == Candidate(S, av, p) /\ (av - p < MinLen \/ p + FrameLen(S, p) > av)

Sound(S, av, out) ==
  /\ \A i \in 1..Len(out) : Whole(S, av, out[i][1]) /\ out[i][2] = FrameLen(S, out[i][1])
  /\ \A i \in 1..(Len(out) - 1) : out[i][1] + out[i][2] <= out[i + 1][1]
Complete(S, av, out) ==
  \A p \in 0..(av - 1) :
     (Whole(S, av, p) /\ ~Inside(p, out))
        => \E r \in 0..(p - 1) : Pending(S, av, r) /\ ~Inside(r, out)
Earliest(S, av, out) ==   \* nothing deliverable starts between deliveries
  \A p \in 0..(av - 1) : (Whole(S, av, p) /\ ~Inside(p, out)) => \A i \in 1..Len(out) : out[i][1] < p
GapCount(out) == Cardinality({i \in 1..(Len(out) - 1) : out[i][1] + out[i][2] < out[i + 1][1]})
=============================================================================
