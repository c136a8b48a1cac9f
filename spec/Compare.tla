------------------------------ MODULE Compare ------------------------------
(* Value comparison of data objects.  Values use the tagged encoding of Doc plus
   [t |-> "c", n, k, v] for a data object (class name, field names, values).
   tol is a positive float [m, e].                                              *)
EXTENDS Big, Functions, TLC
Float(x) == IF x.t = "i" THEN [s |-> x.s, m |-> x.m, e |-> 0] ELSE [s |-> x.s, m |-> x.m, e |-> x.e]
MinI(x, y) == IF x < y THEN x ELSE y
Scale(x, e0) == [s |-> x.s, m |-> ShlN(x.m, x.e - e0)]
LessN(a, b) == CmpN(a, b) < 0
(* |b - a| < tol * |b| if |b| > tol, else |b - a| < tol *)
NearTol(a, b, tol) ==
  LET e0 == MinI(MinI(a.e, b.e), tol.e)
      A == Scale(a, e0)  Bv == Scale(b, e0)  T == ShlN(tol.m, tol.e - e0)
      d == SubZ(A, Bv).m
  IN IF LessN(T, Bv.m)
     THEN \* d * 2^e0 < tol.m * 2^tol.e * b.m * 2^b.e
          LET l == d  lr == MulN(tol.m, b.m)  sh == tol.e + b.e - e0
          IN IF sh >= 0 THEN LessN(l, ShlN(lr, sh)) ELSE LessN(ShlN(l, -sh), lr)
     ELSE LessN(d, T)
RECURSIVE Same(_, _, _)
Same(a, b, tol) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "i" -> EqZ([s |-> a.s, m |-> a.m], [s |-> b.s, m |-> b.m])
         [] a.t = "b" -> a.v = b.v
         [] a.t = "s" -> a.u = b.u
         [] a.t = "n" -> TRUE
         [] a.t = "f" -> NearTol(Float(a), Float(b), tol)
         [] a.t = "a" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Same(a.v[i], b.v[i], tol)
         [] a.t = "o" -> /\ Len(a.k) = Len(b.k)
                         /\ \A i \in 1..Len(a.k) : \E j \in 1..Len(b.k) : a.k[i] = b.k[j] /\ Same(a.v[i], b.v[j], tol)
         [] a.t = "c" -> a.n = b.n /\ a.k = b.k /\ \A i \in 1..Len(a.k) : Same(a.v[i], b.v[i], tol)
=============================================================================
