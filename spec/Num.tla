-------------------------------- MODULE Num --------------------------------
(* Numbers of the specification: exact rationals, elementary functions as  *)
(* truncated series with more than 40 correct digits, comparison of an     *)
(* observed number with the exact one, small linear algebra, and ordering  *)
(* of names.                                                               *)
EXTENDS Rat, FiniteSets, SequencesExt

RLe(a, b) == RNum(a) /\ RNum(b) /\ ~RLt(b, a)
RAbs(a) == IF RLt(a, "0") THEN RNeg(a) ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RSqr(a) == RMul(a, a)
RInv(a) == RDiv("1", a)
RSum(s) == FoldLeft(LAMBDA acc, t : RAdd(acc, t), "0", s)
RMaxSeq(s) == FoldLeft(LAMBDA acc, t : RMax(acc, t), "0", s)
Tup(n, f(_)) == [i \in 1..n |-> f(i)]

---------------------------------------------------------------------------
(* Elementary functions, rounded to PREC decimals *)
PREC == 45
RND(a) == RRound(a, PREC)
PI == "31415926535897932384626433832795028841971693993751058209749445923/10000000000000000000000000000000000000000000000000000000000000000"
LN2 == "69314718055994530941723212145817656807550013436025525412068000949/100000000000000000000000000000000000000000000000000000000000000000"

\* sum of terms t_0 = t0, t_k = t_{k-1} * m / d(k)
Series(t0, m, d(_), n) ==
  FoldLeft(LAMBDA acc, k : LET t == RND(RDiv(RMul(acc[2], m), d(k)))
                           IN  TLCEval(<<RAdd(acc[1], t), t>>),
           <<t0, t0>>, [k \in 1..n |-> k])[1]

RECURSIVE SquareTimes(_, _)
SquareTimes(a, k) == IF k = 0 THEN a ELSE SquareTimes(TLCEval(RND(RSqr(a))), k - 1)
RECURSIVE HalvingsTo(_, _, _)
HalvingsTo(a, lim, k) == IF RLe(a, lim) THEN k ELSE HalvingsTo(TLCEval(RDiv(a, "2")), lim, k + 1)

RECURSIVE RExp(_)
RExp(x) ==
  IF ~RNum(x) THEN "nan"
  ELSE IF RLt(x, "-150") THEN "0"                    \* below the 60 decimals kept
  ELSE IF RLt(x, "0") THEN RRound(RInv(RExp(RNeg(x))), 60)
  ELSE IF RLt("200", x) THEN "nan"
  ELSE LET k == HalvingsTo(x, "1/4", 0)
           r == RND(RDiv(x, RPow("2", k)))
       IN  SquareTimes(Series("1", r, LAMBDA j : RInt(j), 26), k)

RLog(x) ==
  IF ~RLt("0", x) THEN "nan"
  ELSE LET up == HalvingsTo(x, "4/3", 0)                  \* x / 2^up <= 4/3
           m1 == RDiv(x, RPow("2", up))
           dn == IF RLt(m1, "2/3") THEN HalvingsTo(RInv(m1), "3/2", 0) ELSE 0
           m  == RMul(m1, RPow("2", dn))
           z  == RND(RDiv(RSub(m, "1"), RAdd(m, "1")))
           z2 == RND(RSqr(z))
           s  == FoldLeft(LAMBDA acc, k : LET t == RND(RMul(acc[2], z2))
                            IN TLCEval(<<RAdd(acc[1], RDiv(t, RInt(2 * k + 1))), t>>),
                          <<z, z>>, [k \in 1..34 |-> k])[1]
       IN  RND(RAdd(RMul(RInt(up - dn), LN2), RMul("2", s)))

RReduce(x) == \* x modulo 2 pi into [-pi, pi]
  LET k == RFloor(RAdd(RDiv(x, RMul("2", PI)), "1/2"))
  IN  RND(RSub(x, RMul(k, RMul("2", PI))))
RSin(x) == IF ~RNum(x) THEN "nan"
           ELSE LET r == RReduce(x) IN
                RND(Series(r, RNeg(RSqr(r)), LAMBDA k : RInt(2 * k * (2 * k + 1)), 30))
RCos(x) == IF ~RNum(x) THEN "nan"
           ELSE LET r == RReduce(x) IN
                RND(Series("1", RNeg(RSqr(r)), LAMBDA k : RInt(2 * k * (2 * k - 1)), 30))

RECURSIVE SqrtIter(_, _, _)
SqrtIter(x, g, k) == IF k = 0 THEN g
   ELSE SqrtIter(x, TLCEval(RND(RDiv(RAdd(g, RDiv(x, g)), "2"))), k - 1)
RSqrt(x) == IF ~RNum(x) \/ RLt(x, "0") THEN "nan"
            ELSE IF x = "0" THEN "0"
            ELSE LET k == HalvingsTo(RMax(x, RInv(x)), "1", 0)
                     g == IF RLt(x, "1") THEN RInv(RPow("2", (k + 1) \div 2)) ELSE RPow("2", (k + 1) \div 2)
                 IN  SqrtIter(x, g, 9)

---------------------------------------------------------------------------
(* Comparison of observed values *)
\* |o - e| <= rt * max(|e|, 1) + at * scale
CloseT(o, e, rt, scale) ==
  IF ~RNum(e) THEN ~RNum(o)
  ELSE /\ RNum(o)
       /\ RLe(RAbs(RSub(o, e)), RMul(rt, RMax(RMax("1", RAbs(e)), scale)))
Close(o, e) == CloseT(o, e, "1/100000000", "1")          \* 1e-8
CloseRel(o, e, rt) == RNum(o) /\ RNum(e) /\ RLe(RAbs(RSub(o, e)), RMul(rt, RAbs(e)))

CloseSeq(o, e, rt, scale) == Len(o) = Len(e) /\ \A i \in DOMAIN e : CloseT(o[i], e[i], rt, scale)
CloseMat(o, e, rt, scale) == Len(o) = Len(e) /\ \A i \in DOMAIN e : CloseSeq(o[i], e[i], rt, scale)

---------------------------------------------------------------------------
(* Linear algebra on sequences of rows *)
Zeros(n) == [i \in 1..n |-> "0"]
ZeroMat(n, m) == [i \in 1..n |-> Zeros(m)]
Unit(n, k) == [i \in 1..n |-> IF i = k THEN "1" ELSE "0"]
Ident(n) == [i \in 1..n |-> Unit(n, i)]
Dot(a, b) == RSum([i \in DOMAIN a |-> RMul(a[i], b[i])])
MatVec(A, v) == [i \in DOMAIN A |-> Dot(A[i], v)]
VAdd(a, b) == [i \in DOMAIN a |-> RAdd(a[i], b[i])]
VScale(c, a) == [i \in DOMAIN a |-> RMul(c, a[i])]
MScale(c, A) == [i \in DOMAIN A |-> VScale(c, A[i])]
MAdd(A, B) == [i \in DOMAIN A |-> VAdd(A[i], B[i])]
Outer(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN b |-> RMul(a[i], b[j])]]
SubVec(v, ix) == [i \in DOMAIN ix |-> v[ix[i]]]
SubMat(A, ix, jx) == [i \in DOMAIN ix |-> SubVec(A[ix[i]], jx)]

\* Gauss-Jordan elimination of A X = B (B a matrix); <<>> when singular
GJStep(st, k) ==
  IF st = <<>> THEN <<>>
  ELSE LET n == Len(st)
           cand == {i \in k..n : st[i][k] # "0"}
       IN  IF cand = {} THEN <<>>
           ELSE LET p == CHOOSE i \in cand : \A j \in cand : RLe(RAbs(st[j][k]), RAbs(st[i][k]))
                    sw == [st EXCEPT ![k] = st[p], ![p] = st[k]]
                    pr == VScale(RInv(sw[k][k]), sw[k])
                IN  TLCEval([i \in 1..n |-> IF i = k THEN pr
                             ELSE IF sw[i][k] = "0" THEN sw[i]
                             ELSE VAdd(sw[i], VScale(RNeg(sw[i][k]), pr))])
SolveMat(A, B) ==
  LET n == Len(A)
      aug == [i \in 1..n |-> A[i] \o B[i]]
      r == FoldLeft(LAMBDA st, k : GJStep(st, k), aug, [k \in 1..n |-> k])
  IN  IF r = <<>> THEN <<>> ELSE [i \in 1..n |-> SubSeq(r[i], n + 1, Len(r[i]))]
Solve(A, b) == LET r == SolveMat(A, [i \in DOMAIN b |-> <<b[i]>>])
               IN  IF r = <<>> THEN <<>> ELSE [i \in DOMAIN b |-> r[i][1]]
MatInv(A) == SolveMat(A, Ident(Len(A)))
MatNorm(A) == RMaxSeq([i \in DOMAIN A |-> RSum([j \in DOMAIN A[i] |-> RAbs(A[i][j])])])
\* condition estimate (infinity norm); "nan" when singular
Cond(A) == LET B == MatInv(A) IN IF B = <<>> THEN "nan" ELSE RMul(MatNorm(A), MatNorm(B))
\* leading minors test: symmetric positive definite
PosDef(A) == LET RECURSIVE PD(_, _)
                 PD(M, k) == IF k > Len(M) THEN TRUE
                   ELSE /\ RLt("0", M[k][k])
                        /\ PD(TLCEval([i \in DOMAIN M |-> IF i <= k THEN M[i]
                               ELSE VAdd(M[i], VScale(RNeg(RDiv(M[i][k], M[k][k])), M[k]))]), k + 1)
             IN  PD(A, 1)

---------------------------------------------------------------------------
(* Names: code point order *)
Alphabet == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~"
CharOrd == [c \in {SubSeq(Alphabet, i, i) : i \in 1..Len(Alphabet)} |->
              CHOOSE i \in 1..Len(Alphabet) : SubSeq(Alphabet, i, i) = c]
CharLt(a, b) == IF a \in DOMAIN CharOrd /\ b \in DOMAIN CharOrd THEN CharOrd[a] < CharOrd[b]
                ELSE b \notin DOMAIN CharOrd /\ a \in DOMAIN CharOrd
RECURSIVE StrLtAt(_, _, _)
StrLtAt(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE LET ca == SubSeq(a, i, i)  cb == SubSeq(b, i, i)
       IN  IF ca = cb THEN StrLtAt(a, b, i + 1) ELSE CharLt(ca, cb)
StrLt(a, b) == StrLtAt(a, b, 1)
SortNames(S) == SortSeq(SetToSeq(S), StrLt)
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
SeqSet(s) == {s[i] : i \in DOMAIN s}
=============================================================================
