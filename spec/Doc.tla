-------------------------------- MODULE Doc --------------------------------
(* Abstract documents.  Expected documents are built with the constructors
   below; observed documents come from the implementation's output files, in
   the tagged encoding produced by the recorder:
      int    [t |-> "i", s, m]         float  [t |-> "f", s, m, e]
      NaN/inf[t |-> "n"]               bool   [t |-> "b", v]
      string [t |-> "s", v, u]         (v: text if printable ASCII, u: UTF-8 bytes)
      array  [t |-> "a", v]            object [t |-> "o", k, v]     null [t |-> "z"]
   Diff(e, o, path) is the set of paths where the observation is not what the
   specification demands ({} = conforms); it is total on observations.         *)
EXTENDS Bits, TLC

I(z)      == [x |-> "i", z |-> z]
IN_(n)    == [x |-> "i", z |-> FromInt(n)]
Qt(n, p, q, k) == [x |-> "q", z |-> [n |-> n, p |-> p, q |-> q, k |-> k]]
Bo(b)     == [x |-> "b", b |-> b]
St(lit)   == [x |-> "s", l |-> lit]
By(bytes) == [x |-> "u", u |-> bytes]
Ar(seq)   == [x |-> "a", a |-> seq]
Ob(pairs) == [x |-> "o", o |-> pairs]     \* sequence of <<key, expected>>
AnyDoc    == [x |-> "any"]

RECURSIVE Diff(_, _, _)
Diff(e, o, path) ==
  CASE e.x = "any" -> {}
    [] e.x = "i" -> IF o.t = "i" /\ EqZ(e.z, [s |-> o.s, m |-> o.m]) THEN {} ELSE {path}
    [] e.x = "q" -> IF (o.t = "f" /\ NearF(e.z, o.s, o.m, o.e)) \/ (o.t = "i" /\ NearF(e.z, o.s, o.m, 0))
                    THEN {} ELSE {path}
    [] e.x = "b" -> IF o.t = "b" /\ o.v = e.b THEN {} ELSE {path}
    [] e.x = "s" -> IF o.t = "s" /\ o.v = e.l THEN {} ELSE {path}
    [] e.x = "u" -> IF o.t = "s" /\ o.u = e.u THEN {} ELSE {path}
    [] e.x = "a" -> IF o.t # "a" THEN {path}
                    ELSE IF Len(o.v) # Len(e.a) THEN {path \o "/#len"}
                    ELSE UNION {Diff(e.a[i], o.v[i], path \o "/" \o ToString(i)) : i \in 1..Len(e.a)}
    [] e.x = "o" -> IF o.t # "o" THEN {path}
                    ELSE LET ek == [i \in 1..Len(e.o) |-> e.o[i][1]]
                             es == ToSet(ek)
                             os == ToSet(o.k)
                         IN {path \o "/-" \o k : k \in es \ os}
                            \cup {path \o "/+" \o k : k \in os \ es}
                            \cup (IF Len(o.k) # Len(e.o) THEN {path \o "/#dup"} ELSE {})
                            \cup UNION {LET k == e.o[i][1] IN
                                        IF k \in os
                                        THEN Diff(e.o[i][2], o.v[SelectInSeq(o.k, LAMBDA y : y = k)], path \o "/" \o k)
                                        ELSE {} : i \in 1..Len(e.o)}
=============================================================================
