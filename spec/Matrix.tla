------------------------------- MODULE Matrix -------------------------------
(* Matrix-valued components: the value of an expression over scalars and    *)
(* matrices.  A value is [sh, d]: sh = <<>> for a scalar, <<r, c>> for a     *)
(* matrix with the entries d in row-major order.                            *)
(*   "+" and "*" add and multiply (matrix product, or scaling by a scalar),  *)
(*   "f" and "^" act on every entry (on scalars, 1x1 matrices and functions  *)
(*   of matrices),                                                          *)
(*   [o |-> "m", f, a] is transpose, inverse, matrix power, Hadamard product *)
(*   and power, an entry, and the sum over the rows of a product of columns. *)
EXTENDS Models

MShape(a) == a.sh
Entry(a, i, j) == a.d[(i - 1) * a.sh[2] + j]
MatOf(r, c, f(_, _)) ==
  [sh |-> <<r, c>>, d |-> [k \in 1..(r * c) |-> f(((k - 1) \div c) + 1, ((k - 1) % c) + 1)]]
Zip2(a, b, f(_, _)) ==
  LET sh == IF Len(a.sh) >= Len(b.sh) THEN a.sh ELSE b.sh
      at(x, k) == IF x.sh = sh THEN x.d[k] ELSE x.d[1]
  IN  [sh |-> sh, d |-> [k \in 1..Prod(sh) |-> f(at(a, k), at(b, k))]]
MPlus(a, b) == Zip2(a, b, RAdd)
MTimes(a, b, elt) ==
  IF a.sh = <<>> \/ b.sh = <<>> \/ elt THEN Zip2(a, b, RMul)
  ELSE MatOf(a.sh[1], b.sh[2], LAMBDA i, j : RSum([k \in 1..a.sh[2] |-> RMul(Entry(a, i, k), Entry(b, k, j))]))
Rows(a) == [i \in 1..a.sh[1] |-> [j \in 1..a.sh[2] |-> Entry(a, i, j)]]
MInv(a) == LET x == TLCEval(MatInv(Rows(a))) IN MatOf(a.sh[1], a.sh[2], LAMBDA i, j : x[i][j])
RECURSIVE MPower(_, _)
MPower(a, k) == IF k < 0 THEN MPower(MInv(a), -k)
                ELSE IF k = 1 THEN a ELSE TLCEval(MTimes(a, MPower(a, k - 1), FALSE))
Each(a, f(_)) == [sh |-> a.sh, d |-> [k \in DOMAIN a.d |-> f(a.d[k])]]

\* functions of matrices have no matrix product
RECURSIVE Elementwise(_)
Elementwise(e) == CASE e.o = "f" -> TRUE
                    [] e.o \in {"+", "*"} -> \E i \in DOMAIN e.a : Elementwise(e.a[i])
                    [] e.o = "^" -> Elementwise(e.b)
                    [] OTHER -> FALSE
RECURSIVE MEv(_, _)
MEv(e, env) ==
  CASE e.o = "c" -> Scalar(e.v)
    [] e.o = "s" -> env[e.n]
    [] e.o = "+" -> FoldLeft(LAMBDA acc, t : TLCEval(MPlus(acc, MEv(t, env))), MEv(e.a[1], env), Tail(e.a))
    [] e.o = "*" -> LET elt == Elementwise(e)
                    IN  FoldLeft(LAMBDA acc, t : TLCEval(MTimes(acc, MEv(t, env), elt)), Scalar("1"), e.a)
    [] e.o = "^" -> Each(MEv(e.b, env), LAMBDA x : RPow(x, e.k))
    [] e.o = "f" -> Each(TLCEval(MEv(e.a, env)), LAMBDA x : JFun(e.f, [v |-> x, g |-> <<>>, h |-> <<>>], 0).v)
    [] e.o = "m" ->
         LET x == TLCEval([i \in DOMAIN e.a |-> MEv(e.a[i], env)])
         IN  CASE e.f = "T" -> MatOf(x[1].sh[2], x[1].sh[1], LAMBDA i, j : Entry(x[1], j, i))
               [] e.f = "inv" -> MInv(x[1])
               [] e.f = "mpow" -> MPower(x[1], e.k)
               [] e.f = "had" -> FoldLeft(LAMBDA acc, t : Zip2(acc, t, RMul), x[1], Tail(x))
               [] e.f = "hpow" -> Each(x[1], LAMBDA t : RPow(t, e.k))
               [] e.f = "elem" -> Scalar(Entry(x[1], e.i + 1, e.j + 1))
               [] e.f = "sum" -> Scalar(RSum([k \in 1..x[1].sh[1] |->
                                   FoldLeft(LAMBDA acc, t : RMul(acc, t.d[k]), "1", x)]))

\* values of all components, in the form of EvalModel (without derivatives)
EvalMatrix(defs, args, ps, L) ==
  LET jet(a) == [sh |-> a.sh, j |-> [k \in DOMAIN a.d |-> Const(a.d[k], Len(ps), L)]]
      env == FoldLeft(LAMBDA E, n : TLCEval((n :> TLCEval(MEv(DefOf(defs, n), E))) @@ E),
                      [s \in DOMAIN args |-> [sh |-> args[s].sh, d |-> args[s].d]], Topo(defs))
  IN  TLCEval([s \in DOMAIN env |-> jet(env[s])])
=============================================================================
