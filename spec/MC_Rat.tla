------------------------------ MODULE MC_Rat ------------------------------
(* Exhaustive agreement of the executed rational arithmetic with RatRef.   *)
EXTENDS Rat
Ref == INSTANCE RatRef

VARIABLES a, b
ASSUME RMul("123456789012345678901234567890","10/3") = "411522630041152263004115226300"
Num == {Ref!FromPair(<<n, d>>) : n \in -6..6, d \in 1..4} \cup {"nan", "7/1000", "-13/12"}
Init == a \in Num /\ b \in Num
Next == UNCHANGED <<a, b>>
Agree == /\ RAdd(a, b) = Ref!Add(a, b)
         /\ RSub(a, b) = Ref!Sub(a, b)
         /\ RMul(a, b) = Ref!Mul(a, b)
         /\ RDiv(a, b) = Ref!Div(a, b)
         /\ RNeg(a) = Ref!Neg(a)
         /\ RLt(a, b) = Ref!Lt(a, b)
         /\ \A k \in -2..3 : RPow(a, k) = Ref!Pow(a, k)
         /\ RFloor(a) = Ref!Floor(a)
         /\ \A k \in 0..2 : RRound(a, k) = Ref!Round(a, k)
         /\ RNum(a) = (a \notin Ref!NonNum)
\* field laws, so that the reference itself is not vacuous
Laws == (a # "nan" /\ b # "nan") =>
         /\ RSub(RAdd(a, b), b) = a
         /\ (b # "0" => RMul(RDiv(a, b), b) = a)
         /\ (RLt(a, b) \/ RLt(b, a) \/ a = b)
===========================================================================
