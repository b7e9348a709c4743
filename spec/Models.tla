------------------------------- MODULE Models -------------------------------
(* Models: a sequence of components [n |-> name, e |-> expression] over     *)
(* parameters (a set of names) and variables.                              *)
EXTENDS Expr

DefNames(defs) == {defs[i].n : i \in DOMAIN defs}
TheDef(defs, s) == defs[CHOOSE i \in DOMAIN defs : defs[i].n = s]
DefOf(defs, s) == TheDef(defs, s).e
\* dependencies of a component; callables state theirs explicitly (field dep)
DepsOf(d) == IF "dep" \in DOMAIN d THEN SeqSet(d.dep) ELSE Syms(d.e)
UsedSyms(defs) == UNION {DepsOf(defs[i]) : i \in DOMAIN defs}

(* Roles (C01) *)
Params(defs, PN) == SortNames((UsedSyms(defs) \ DefNames(defs)) \cap PN)
Indep(defs, PN) == SortNames((UsedSyms(defs) \ DefNames(defs)) \ PN)
Dep(defs) == SortNames(DefNames(defs) \ UsedSyms(defs))
Inter(defs) == SortNames(DefNames(defs) \cap UsedSyms(defs))
\* components in the order in which a model lists them
Listed(defs) == SortNames(DefNames(defs))

(* Evaluation order: components whose uses are all available come first *)
RECURSIVE TopoFrom(_, _)
TopoFrom(todo, done) ==
  LET names == TLCEval({x.n : x \in todo})
      ready == TLCEval({d \in todo : (DepsOf(d) \cap names) = {}})
  IN  IF todo = {} THEN done
      ELSE IF ready = {} THEN <<"cycle">>
      ELSE TopoFrom(todo \ ready, done \o SortNames({d.n : d \in ready}))
Topo(defs) == TopoFrom(SeqSet(defs), <<>>)
Cyclic(defs) == Topo(defs) = <<"cycle">> /\ Len(defs) > 0

WellFormed(defs, PN) ==
  /\ DefNames(defs) \cap PN = {}
  /\ ~Cyclic(defs)

(* All that the named component needs, transitively *)
RECURSIVE Closure(_, _)
Closure(defs, S) ==
  LET T == S \cup UNION {DepsOf(defs[i]) : i \in {j \in DOMAIN defs : defs[j].n \in S}}
  IN  IF T = S THEN S ELSE Closure(defs, T)

Negated(defs) == LET dp == SeqSet(Dep(defs))
                 IN  [i \in DOMAIN defs |-> IF defs[i].n \in dp
                        THEN [defs[i] EXCEPT !.e = Neg(@)] ELSE defs[i]]

---------------------------------------------------------------------------
(* Arrays: [sh |-> shape, d |-> entries in row-major order] *)
Prod(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
PadTo(s, r) == [i \in 1..r |-> IF i <= r - Len(s) THEN 1 ELSE s[i - (r - Len(s))]]
BC2(s, t) ==
  IF s = t THEN s
  ELSE IF s = <<-1>> \/ t = <<-1>> THEN <<-1>>
  ELSE LET r == IF Len(s) > Len(t) THEN Len(s) ELSE Len(t)
           a == PadTo(s, r)  b == PadTo(t, r)
       IN  IF \E i \in 1..r : a[i] # b[i] /\ a[i] # 1 /\ b[i] # 1 THEN <<-1>>
           ELSE [i \in 1..r |-> IF a[i] = 1 THEN b[i] ELSE a[i]]
BShape(S) == FoldLeft(LAMBDA a, x : BC2(a, x), <<>>, S)
AtLeast1(sh) == IF sh = <<>> THEN <<1>> ELSE sh
\* position in an array of shape sh of entry k of its broadcast to shape out
BIdx(k, out, sh) ==
  IF sh = out THEN k
  ELSE IF Prod(sh) = 1 THEN 1
  ELSE LET r == Len(out)
           off == r - Len(sh)
           ix(i) == ((k - 1) \div Prod(SubSeq(out, i + 1, r))) % out[i]
           term(i) == IF sh[i - off] = 1 THEN 0
                      ELSE ix(i) * Prod(SubSeq(sh, i - off + 1, Len(sh)))
       IN  1 + FoldLeft(LAMBDA a, i : a + term(i), 0, [i \in 1..Len(sh) |-> i + off])

(* Evaluation of all components.  args: function from names of independent *)
(* variables and parameters to arrays; ps: parameter order for the jets.   *)
(* Result: function from all names to [sh, j] with jets.                   *)
JetEnv(args, ps, L) ==
  [s \in DOMAIN args |->
     [sh |-> args[s].sh,
      j |-> IF s \in SeqSet(ps)
            THEN [k \in DOMAIN args[s].d |-> Seed(args[s].d[k], IndexOf(ps, s), Len(ps), L)]
            ELSE [k \in DOMAIN args[s].d |-> Const(args[s].d[k], Len(ps), L)]]]
EvalComp(e, env, ps, L) ==
  LET sy == Syms(e)
      sh == BShape(SetToSeq({env[s].sh : s \in sy}))
      js == [k \in 1..Prod(sh) |->
              Ev(e, [s \in sy |-> env[s].j[BIdx(k, sh, env[s].sh)]], Len(ps), L)]
  IN  TLCEval([sh |-> sh, j |-> js])
EvalModel(defs, args, ps, L) ==
  FoldLeft(LAMBDA env, n : TLCEval((n :> EvalComp(DefOf(defs, n), env, ps, L)) @@ env),
           TLCEval(JetEnv(args, ps, L)), Topo(defs))

ValArr(a) == [sh |-> a.sh, d |-> [k \in DOMAIN a.j |-> a.j[k].v]]
Scalar(v) == [sh |-> <<>>, d |-> <<v>>]
ScalarArgs(f) == [s \in DOMAIN f |-> Scalar(f[s])]

(* Magnitude of the terms of an expression, to bound rounding errors *)
RECURSIVE Mag(_, _)
Mag(e, env) ==
  CASE e.o = "c" -> RAbs(e.v)
    [] e.o = "s" -> env[e.n]
    [] e.o = "+" -> RSum([i \in DOMAIN e.a |-> Mag(e.a[i], env)])
    [] e.o = "*" -> FoldLeft(LAMBDA a, x : RMul(a, Mag(x, env)), "1", e.a)
    [] e.o = "^" -> IF e.k >= 0 THEN RPow(Mag(e.b, env), e.k) ELSE "1"
    [] OTHER -> "1"

(* Comparison of an observed array with an expected one *)
EqArr(o, e) == o.sh = e.sh /\ o.d = e.d
CloseArr(o, e, rt) == o.sh = e.sh /\ CloseSeq(o.d, e.d, rt, "1")
\* an observed array that broadcasts to the expected shape
CloseBC(o, e, rt) ==
  /\ BC2(o.sh, e.sh) = AtLeast1(e.sh) \/ BC2(o.sh, e.sh) = e.sh
  /\ Len(o.d) = Prod(o.sh)
  /\ \A k \in DOMAIN e.d : CloseT(o.d[BIdx(k, AtLeast1(e.sh), o.sh)], e.d[k], rt, "1")
=============================================================================
