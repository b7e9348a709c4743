------------------------------ MODULE RatRef ------------------------------
(* Reference semantics of rational arithmetic.  A rational is a string     *)
(* "p/q" or "p" in lowest terms with positive denominator; the non-numbers *)
(* are "nan", "inf" and "-inf".  The definitions below are complete as     *)
(* long as all intermediate integers fit TLC's 32-bit integers.  Module    *)
(* Rat repeats the interface and is executed with unbounded integers; the  *)
(* module MC_Rat checks exhaustively on a grid that both agree.            *)
EXTENDS Integers, Sequences, TLC

LOCAL Digits == <<"0","1","2","3","4","5","6","7","8","9">>
LOCAL DigitVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
RECURSIVE NatOf(_, _)
NatOf(s, k) == IF k = 0 THEN 0
                     ELSE 10 * NatOf(s, k - 1) + DigitVal(SubSeq(s, k, k))
LOCAL IntOf(s) == IF SubSeq(s, 1, 1) = "-"
                  THEN -NatOf(SubSeq(s, 2, Len(s)), Len(s) - 1)
                  ELSE NatOf(s, Len(s))
RECURSIVE SlashAt(_, _)
SlashAt(s, i) == IF i > Len(s) THEN 0
                       ELSE IF SubSeq(s, i, i) = "/" THEN i ELSE SlashAt(s, i + 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
LOCAL Abs(n) == IF n < 0 THEN -n ELSE n

NonNum == {"nan", "inf", "-inf"}
ToPair(s) == LET k == SlashAt(s, 1)
             IN  IF k = 0 THEN <<IntOf(s), 1>>
                 ELSE <<IntOf(SubSeq(s, 1, k - 1)), IntOf(SubSeq(s, k + 1, Len(s)))>>
FromPair(p) == LET g == Gcd(Abs(p[1]), Abs(p[2]))
                   sg == IF p[2] < 0 THEN -1 ELSE 1
                   n == sg * (p[1] \div g)
                   d == sg * (p[2] \div g)
               IN  IF d = 1 THEN ToString(n) ELSE ToString(n) \o "/" \o ToString(d)

Add(a, b) == IF a \in NonNum \/ b \in NonNum THEN "nan"
             ELSE LET p == ToPair(a)  q == ToPair(b)
                  IN  FromPair(<<p[1] * q[2] + q[1] * p[2], p[2] * q[2]>>)
Neg(a) == IF a \in NonNum THEN "nan" ELSE LET p == ToPair(a) IN FromPair(<<-p[1], p[2]>>)
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a \in NonNum \/ b \in NonNum THEN "nan"
             ELSE LET p == ToPair(a)  q == ToPair(b)
                  IN  FromPair(<<p[1] * q[1], p[2] * q[2]>>)
Div(a, b) == IF a \in NonNum \/ b \in NonNum THEN "nan"
             ELSE LET p == ToPair(a)  q == ToPair(b)
                  IN  IF q[1] = 0 THEN "nan" ELSE FromPair(<<p[1] * q[2], p[2] * q[1]>>)
Lt(a, b) == a \notin NonNum /\ b \notin NonNum /\
            LET p == ToPair(a)  q == ToPair(b) IN p[1] * q[2] < q[1] * p[2]
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN (IF a \in NonNum THEN "nan" ELSE "1")
             ELSE IF n > 0 THEN Mul(a, Pow(a, n - 1))
             ELSE Div("1", Pow(a, -n))
Floor(a) == IF a \in NonNum THEN "nan"
            ELSE LET p == ToPair(a) IN ToString(p[1] \div p[2])
\* nearest multiple of 10^-k (halves away from minus infinity)
Round(a, k) == IF a \in NonNum THEN "nan"
               ELSE Div(Floor(Add(Mul(a, ToString(10^k)), "1/2")), ToString(10^k))
===========================================================================
