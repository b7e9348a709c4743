-------------------------------- MODULE Poly --------------------------------
(* Polynomials in normal form, to decide equality of expressions (C06).     *)
(* A polynomial over an ordered list of names is a function from exponent   *)
(* vectors to non-zero coefficients.                                        *)
EXTENDS Models

RECURSIVE IsPoly(_)
IsPoly(e) == CASE e.o \in {"c", "s"} -> TRUE
               [] e.o \in {"+", "*"} -> \A i \in DOMAIN e.a : IsPoly(e.a[i])
               [] e.o = "^" -> e.k >= 0 /\ IsPoly(e.b)
               [] OTHER -> FALSE
Clean(p) == [m \in {k \in DOMAIN p : p[k] # "0"} |-> p[m]]
PAdd(p, q) == Clean([m \in DOMAIN p \cup DOMAIN q |->
                RAdd(IF m \in DOMAIN p THEN p[m] ELSE "0", IF m \in DOMAIN q THEN q[m] ELSE "0")])
MMul(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
PScale(p, m, c) == LET ms == {MMul(k, m) : k \in DOMAIN p}
                   IN [k \in ms |-> RMul(c, p[CHOOSE j \in DOMAIN p : MMul(j, m) = k])]
PMul(p, q) == FoldLeft(LAMBDA acc, m : TLCEval(PAdd(acc, PScale(p, m, q[m]))),
                       [x \in {} |-> "0"], SetToSeq(DOMAIN q))
RECURSIVE ToPoly(_, _)
ToPoly(e, ns) ==
  CASE e.o = "c" -> Clean([m \in {[i \in DOMAIN ns |-> 0]} |-> e.v])
    [] e.o = "s" -> [m \in {[i \in DOMAIN ns |-> IF ns[i] = e.n THEN 1 ELSE 0]} |-> "1"]
    [] e.o = "+" -> FoldLeft(LAMBDA acc, t : TLCEval(PAdd(acc, ToPoly(t, ns))), [x \in {} |-> "0"], e.a)
    [] e.o = "*" -> FoldLeft(LAMBDA acc, t : TLCEval(PMul(acc, ToPoly(t, ns))),
                             [m \in {[i \in DOMAIN ns |-> 0]} |-> "1"], e.a)
    [] e.o = "^" -> LET b == TLCEval(ToPoly(e.b, ns))
                    IN  FoldLeft(LAMBDA acc, i : TLCEval(PMul(acc, b)),
                                 [m \in {[i \in DOMAIN ns |-> 0]} |-> "1"], [i \in 1..e.k |-> i])

\* sample points for telling expressions apart
Pt(ns, k) == [n \in SeqSet(ns) |-> RDiv(RInt(((IndexOf(ns, n) * 7 + k * 5) % 11) + 1), RInt(4 + k))]
ValAt(e, ns, k) == Ev(e, [n \in SeqSet(ns) |-> Const(Pt(ns, k)[n], 0, 0)], 0, 0).v
RECURSIVE Unneg(_)
Unneg(e) == IF e.o = "*" /\ Len(e.a) = 2 /\ e.a[1] = Num0("-1") /\ e.a[2].o = "*"
                 /\ Len(e.a[2].a) = 2 /\ e.a[2].a[1] = Num0("-1")
            THEN Unneg(e.a[2].a[2]) ELSE e
\* "yes", "no" or "unknown"
SameExpr(e, f) ==
  LET ns == SortNames(Syms(e) \cup Syms(f))
  IN  IF Unneg(e) = Unneg(f) THEN "yes"
      ELSE IF IsPoly(e) /\ IsPoly(f) THEN (IF ToPoly(e, ns) = ToPoly(f, ns) THEN "yes" ELSE "no")
      ELSE IF \E k \in 1..3 : LET a == ValAt(e, ns, k)  b == ValAt(f, ns, k)
                              IN  RNum(a) /\ RNum(b) /\ ~CloseT(a, b, "1/1000000", "1")
           THEN "no" ELSE "unknown"
SameModel(d1, d2) ==
  IF DefNames(d1) # DefNames(d2) THEN "no"
  ELSE LET r == {SameExpr(DefOf(d1, n), DefOf(d2, n)) : n \in DefNames(d1)}
       IN  IF "no" \in r THEN "no" ELSE IF "unknown" \in r THEN "unknown" ELSE "yes"
=============================================================================
