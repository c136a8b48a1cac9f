----------------------------- MODULE MCSources -----------------------------
(* All argument lists up to MaxArgs and all dialogues with up to MaxTok answer
   tokens over folders with up to MaxFiles matching files.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxArgs, MaxTok, MaxFiles
JunkTok == 99
S == INSTANCE Sources WITH Junk <- JunkTok
VARIABLES args, listed, answer
vars == <<args, listed, answer>>
ArgKinds == {[kind |-> "file", id |-> 1], [kind |-> "file", id |-> 2], [kind |-> "none", id |-> 3], [kind |-> "dir", id |-> 4]}
Toks == {-1, 0, JunkTok} \cup 1..(MaxFiles + 1)
Init == args = <<>> /\ listed \in {[i \in 1..n |-> 10 + i] : n \in 0..MaxFiles} /\ answer = <<>>
Say == PrintT("GEN|" \o ToJson([a |-> args', n |-> Len(listed), t |-> answer']))
AddArg == /\ Len(args) < MaxArgs /\ answer = <<>>
          /\ \E a \in ArgKinds : args' = Append(args, a)
          /\ UNCHANGED <<listed, answer>>
          /\ (Len(listed) = 0 \/ S!Dialogue(args')) => Say
AddTok == /\ S!Dialogue(args) /\ listed # <<>> /\ Len(answer) < MaxTok
          /\ \E t \in Toks : answer' = Append(answer, t)
          /\ UNCHANGED <<args, listed>>
          /\ Say
Next == AddArg \/ AddTok
Spec == Init /\ [][Next]_vars
Got == S!Chosen(args, listed, answer)
OnlyOffered == \A i \in 1..Len(Got) : Got[i] \in ToSet(listed) \cup {args[j].id : j \in {k \in 1..Len(args) : args[k].kind = "file"}}
NamedAll == ~S!Dialogue(args) => Len(Got) = Cardinality({j \in 1..Len(args) : args[j].kind = "file"})
AnswerRules == (S!Dialogue(args) /\ listed # <<>>) =>
  IF JunkTok \in ToSet(answer) THEN Got = <<>>
  ELSE /\ Len(Got) = Cardinality({j \in 1..Len(answer) : answer[j] \in 1..Len(listed)})
       /\ \A j \in 1..Len(answer) : answer[j] \in 1..Len(listed) => listed[answer[j]] \in ToSet(Got)
=============================================================================
