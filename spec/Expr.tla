-------------------------------- MODULE Expr --------------------------------
(* Expressions: syntax trees (records read from JSON), free symbols, and   *)
(* evaluation with exact first and second derivatives (forward mode).      *)
(*   [o |-> "c", v]            number                                      *)
(*   [o |-> "s", n]            symbol                                      *)
(*   [o |-> "+", a] [o |-> "*", a]    sum, product of a sequence           *)
(*   [o |-> "^", b, k]         integer power                               *)
(*   [o |-> "f", f, a]         exp, log, sin, cos, sqrt                     *)
(*   [o |-> "m", f, a]         operation on matrices (module Matrix)         *)
EXTENDS Num

RECURSIVE Syms(_)
Syms(e) ==
  CASE e.o = "c" -> {}
    [] e.o = "s" -> {e.n}
    [] e.o \in {"+", "*"} -> UNION {Syms(e.a[i]) : i \in DOMAIN e.a}
    [] e.o = "m" -> UNION {Syms(e.a[i]) : i \in DOMAIN e.a} \cup (IF "dim" \in DOMAIN e THEN {e.dim[i] : i \in DOMAIN e.dim} ELSE {})
    [] e.o = "^" -> Syms(e.b)
    [] e.o = "f" -> Syms(e.a)

(* A jet of level L over n parameters: value v, gradient g (L >= 1),       *)
(* Hessian h (L = 2); h is stored as rows.                                  *)
Const(c, n, L) == [v |-> c,
                   g |-> IF L >= 1 THEN Zeros(n) ELSE <<>>,
                   h |-> IF L >= 2 THEN ZeroMat(n, n) ELSE <<>>]
Seed(c, k, n, L) == [v |-> c,
                     g |-> IF L >= 1 THEN Unit(n, k) ELSE <<>>,
                     h |-> IF L >= 2 THEN ZeroMat(n, n) ELSE <<>>]
JAdd(x, y, L) == [v |-> RAdd(x.v, y.v),
                  g |-> IF L >= 1 THEN VAdd(x.g, y.g) ELSE <<>>,
                  h |-> IF L >= 2 THEN MAdd(x.h, y.h) ELSE <<>>]
Mul2(a, b) == IF a = "0" \/ b = "0" THEN "0" ELSE RMul(a, b)
JMul(x, y, L) ==
  [v |-> RMul(x.v, y.v),
   g |-> IF L >= 1 THEN [i \in DOMAIN x.g |-> RAdd(Mul2(x.g[i], y.v), Mul2(x.v, y.g[i]))] ELSE <<>>,
   h |-> IF L >= 2 THEN [i \in DOMAIN x.g |-> [j \in DOMAIN x.g |->
            RAdd(RAdd(Mul2(x.h[i][j], y.v), Mul2(x.v, y.h[i][j])),
                 RAdd(Mul2(x.g[i], y.g[j]), Mul2(x.g[j], y.g[i])))]] ELSE <<>>]
\* f(x) with f0 = f(v), f1 = f'(v), f2 = f''(v)
JChain(x, f0, f1, f2, L) ==
  [v |-> f0,
   g |-> IF L >= 1 THEN [i \in DOMAIN x.g |-> Mul2(f1, x.g[i])] ELSE <<>>,
   h |-> IF L >= 2 THEN [i \in DOMAIN x.g |-> [j \in DOMAIN x.g |->
            RAdd(Mul2(f2, Mul2(x.g[i], x.g[j])), Mul2(f1, x.h[i][j]))]] ELSE <<>>]
JPow(x, k, L) ==
  IF k = 0 THEN Const("1", Len(x.g), L)
  ELSE JChain(x, RPow(x.v, k), RMul(RInt(k), RPow(x.v, k - 1)),
              IF k = 1 THEN "0" ELSE RMul(RInt(k * (k - 1)), RPow(x.v, k - 2)), L)
JFun(f, x, L) ==
  CASE f = "exp" -> LET e == RExp(x.v) IN JChain(x, e, e, e, L)
    [] f = "log" -> JChain(x, RLog(x.v), RInv(x.v), RNeg(RInv(RSqr(x.v))), L)
    [] f = "sin" -> LET s == RSin(x.v) c == RCos(x.v) IN JChain(x, s, c, RNeg(s), L)
    [] f = "cos" -> LET s == RSin(x.v) c == RCos(x.v) IN JChain(x, c, RNeg(s), RNeg(c), L)
    [] f = "sqrt" -> LET r == RSqrt(x.v)
                     IN  JChain(x, r, RInv(RMul("2", r)), RNeg(RInv(RMul("4", RMul(x.v, r)))), L)
JDiv(x, y, L) == JMul(x, JPow(y, -1, L), L)
JNeg(x, L) == JMul(Const("-1", Len(x.g), L), x, L)

\* env: function from symbol names to jets
RECURSIVE Ev(_, _, _, _)
Ev(e, env, n, L) ==
  CASE e.o = "c" -> Const(e.v, n, L)
    [] e.o = "s" -> env[e.n]
    [] e.o = "+" -> FoldLeft(LAMBDA acc, t : TLCEval(JAdd(acc, Ev(t, env, n, L), L)),
                             Const("0", n, L), e.a)
    [] e.o = "*" -> FoldLeft(LAMBDA acc, t : TLCEval(JMul(acc, Ev(t, env, n, L), L)),
                             Const("1", n, L), e.a)
    [] e.o = "^" -> TLCEval(JPow(TLCEval(Ev(e.b, env, n, L)), e.k, L))
    [] e.o = "f" -> TLCEval(JFun(e.f, TLCEval(Ev(e.a, env, n, L)), L))

Neg(e) == [o |-> "*", a |-> <<[o |-> "c", v |-> "-1"], e>>]
Minus(e, f) == [o |-> "+", a |-> <<e, Neg(f)>>]
Num0(c) == [o |-> "c", v |-> c]
Sym0(s) == [o |-> "s", n |-> s]

\* substitution of symbols by expressions (function with names as domain)
RECURSIVE Subst(_, _)
Subst(e, f) ==
  CASE e.o = "c" -> e
    [] e.o = "s" -> IF e.n \in DOMAIN f THEN f[e.n] ELSE e
    [] e.o \in {"+", "*"} -> [e EXCEPT !.a = [i \in DOMAIN e.a |-> Subst(e.a[i], f)]]
    [] e.o = "^" -> [e EXCEPT !.b = Subst(e.b, f)]
    [] e.o = "f" -> [e EXCEPT !.a = Subst(e.a, f)]
=============================================================================
