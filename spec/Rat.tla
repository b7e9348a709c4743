-------------------------------- MODULE Rat --------------------------------
(* Rational arithmetic on the representation of RatRef.  TLC executes the  *)
(* operators through spec/java/Rat.java (java.math.BigInteger), so numbers *)
(* of any size are exact; MC_Rat.tla checks the agreement with RatRef.     *)
EXTENDS Integers, Sequences, TLC
LOCAL Ref == INSTANCE RatRef

RAdd(a, b) == Ref!Add(a, b)
RSub(a, b) == Ref!Sub(a, b)
RMul(a, b) == Ref!Mul(a, b)
RDiv(a, b) == Ref!Div(a, b)
RNeg(a) == Ref!Neg(a)
RLt(a, b) == Ref!Lt(a, b)
RPow(a, n) == Ref!Pow(a, n)
RFloor(a) == Ref!Floor(a)
RRound(a, k) == Ref!Round(a, k)
RNum(a) == a \notin Ref!NonNum
RInt(n) == ToString(n)
ROfDec(s) == s
\* TLC integer of an integer-valued rational of moderate size
RToInt(a) == Ref!ToPair(a)[1]
=============================================================================
