---------------------------- MODULE TraceSession ----------------------------
(* The session around models and fits: pickling in the same and in fresh    *)
(* interpreters (C26), bulk and unnamed symbols (C28), cached attributes     *)
(* (C30), library distributions (C32), text renderings (C33), interactive   *)
(* guesses (C27).                                                           *)
EXTENDS TraceFit

---------------------------------------------------------------------------
(* Pickling: what is restored is the same abstract object.  It is marked, so *)
(* that all that is observed about it later on also counts for C26.         *)
Restored(o) == [rest |-> TRUE] @@ o
SymAttrOk(st, n, attr) ==
  IF n \in DOMAIN st.P THEN attr.name = n /\ SameAttr(attr, st.P[n]) ELSE attr.name = n
OpPickle(st, e) ==
  IF Failed(e) THEN Res(st, <<Ck("C26.raised", FALSE)>>)
  ELSE LET base == <<Ck("C26.class", e.obs.same), Ck("C26.undisturbed", SnapOk(st, e.obs.snap))>>
       IN  IF Get(e, "sym", FALSE) THEN Res(st, base \o <<Ck("C26.symbol", SymAttrOk(st, e.x, e.obs.attr))>>)
           ELSE Res(SetObj(st, e.id, Restored(st.O[e.x])), base)
\* a dump keeps the state of that moment
OpDump(st, e) ==
  IF Failed(e) THEN Res(st, <<Ck("C26.raised", FALSE)>>)
  ELSE LET O2 == [x \in SeqSet(e.xs) |-> Restored(st.O[x])]
           D == [EmptyState EXCEPT !.P = Pick(st.P, SeqSet(e.syms) \cap DOMAIN st.P), !.O = O2,
                                   !.V = st.V \cap SeqSet(e.syms), !.A = Get(e, "anon", <<>>)]
       IN  Res([st EXCEPT !.B = With(@, e.b, D)], <<Ck("C26.dumped", TRUE)>>)
\* loading in the interpreter where the parameters have gone on: nothing may change
OpLoad(st, e) ==
  IF Failed(e) THEN Res(st, <<Ck("C26.raised", FALSE)>>)
  ELSE LET D == st.B[e.b]
           snap == Fn(e.obs.snap)
           kept == SnapOk(st, e.obs.snap)
           P2 == [n \in DOMAIN st.P |-> IF n \in DOMAIN D.P THEN D.P[n] ELSE st.P[n]]
           rev == SnapOk([st EXCEPT !.P = P2], e.obs.snap)
           now == [n \in DOMAIN st.P |-> Pick(snap[n], {"value", "min", "max", "fixed"})]
           O2 == [k \in SeqSet(e.ids) |-> D.O[e.xs[IndexOf(e.ids, k)]]]
       IN  Res([st EXCEPT !.P = now, !.O = O2 @@ @],
               <<IF kept THEN Ck("C26.undisturbed", TRUE)
                 ELSE IF rev THEN Ck("C26.reverted", FALSE) ELSE Ck("C26.undisturbed", FALSE)>>)
\* symbols in a fresh interpreter
OpFsym(st, e) == Res(st, <<Ck("C26.symbol", ~Failed(e) /\ SymAttrOk(st, e.n, e.obs.attr)
                                            /\ e.obs.isvar = (e.n \notin DOMAIN st.P))>>)

---------------------------------------------------------------------------
(* Symbols (C28) *)
OpParams(st, e) ==
  LET n == Len(e.list)
      sc == Fn(e.scal)  sq == Fn(e.seqs)
      at(k, i, d) == IF k \in DOMAIN sq THEN sq[k].seq[i] ELSE IF k \in DOMAIN sc THEN sc[k] ELSE d
      lens == \A k \in DOMAIN sq : Len(sq[k].seq) = n
      a(i) == [value |-> at("value", i, "1"), min |-> at("min", i, "none"), max |-> at("max", i, "none"),
               fixed |-> at("fixed", i, "false")]
  IN  IF ~lens \/ \E i \in 1..n : Refused(a(i)) THEN Res(st, <<Ck("C28.bulkrefuse", Failed(e))>>)
      ELSE IF Failed(e) THEN Res(st, <<Ck("C28.bulk", FALSE)>>)
      ELSE Res([st EXCEPT !.P = [x \in SeqSet(e.list) |-> a(IndexOf(e.list, x))] @@ @],
               <<Ck("C28.bulknames", Keys(e.obs.got) = e.list),
                 Ck("C28.bulk", Len(e.obs.got) = n /\ \A i \in 1..n : SameAttr(e.obs.got[i][2], a(i)))>>)
OpVars(st, e) ==
  Res([st EXCEPT !.V = @ \cup SeqSet(e.list)],
      <<Ck("C28.bulkvars", ~Failed(e) /\ e.obs.got = e.list /\ e.obs.isvar)>>)
OpAnon(st, e) ==
  IF Failed(e) THEN Res(st, <<Ck("C28.unnamed", FALSE)>>)
  ELSE LET all == st.A \o e.obs.names
       IN  Res([st EXCEPT !.A = all],
               <<Ck("C28.unnamed", Len(e.obs.names) = e.k /\ Unique(all)
                                   /\ SeqSet(e.obs.names) \cap (DOMAIN st.P \cup st.V) = {}),
                 Ck("C28.unnamedident", e.obs.ident),
                 CkIf(e.cls = "Parameter", "C28.unnamedvalue",
                      \A i \in DOMAIN e.obs.values : e.obs.values[i] = Get(e, "value", "1")),
                 CkIf(Has(e, "fresh"), "C26.unnamed", Unique(all))>>)
OpPeq(st, e) ==
  LET same == e.x = e.y
  IN  Res(st, <<Ck("C28.equal", ~Failed(e) /\ e.obs.eq = same /\ e.obs.ne = ~same /\ (same => e.obs.hash))>>)

\* two objects made with the given attributes
OpPeqattr(st, e) ==
  LET same == e.n = e.m /\ e.cb = "Parameter" /\ \A k \in {"value", "min", "max", "fixed"} : e.a[k] = e.b[k]
  IN  Res(st, <<Ck("C28.equal", /\ ~Failed(e) /\ e.obs.eq = same /\ e.obs.ne = ~same /\ e.obs.sym = same /\ e.obs.self
                                /\ (same => e.obs.hash))>>)

---------------------------------------------------------------------------
(* Cached attributes (C30).  Two kinds of hosts with attributes p, q and r;  *)
(* r uses q; hosts of the second kind (object 2) override p.  A computed     *)
(* value records the object, the attribute, the base at that time and how   *)
(* often the attribute has been computed.                                   *)
CAttrs == <<"p", "q", "r", "z">>
CNew == [base |-> 0, fail |-> {}, count |-> [a \in SeqSet(CAttrs) |-> 0],
         cache |-> [a \in SeqSet(CAttrs) |-> <<>>], last |-> [a \in SeqSet(CAttrs) |-> 0]]
CRaw(h, k, a) == <<ToString(k), a, ToString(h.base), ToString(h.count[a])>>
CBump(h, a) == [h EXCEPT !.count[a] = @ + 1]
\* computing an attribute: [h, ok]
CComp(h, k, a) ==
  LET b == CBump(h, a)
  IN  IF a \in h.fail THEN [h |-> b, ok |-> FALSE, err |-> IF a = "q" THEN "AttributeError" ELSE "ValueError"]
      ELSE [h |-> [b EXCEPT !.cache[a] = IF a = "z" THEN <<"none">> ELSE IF a = "p" /\ k = 2 THEN CRaw(b, k, a) \o <<"sub">> ELSE CRaw(b, k, a)], ok |-> TRUE]
CGet(h, k, a) ==
  IF h.cache[a] # <<>> THEN [h |-> h, ok |-> TRUE]
  ELSE IF a # "r" THEN CComp(h, k, a)
  ELSE LET x == IF h.cache["q"] # <<>> THEN [h |-> h, ok |-> TRUE] ELSE CComp(h, k, "q")
       IN  IF ~x.ok THEN x
           ELSE LET y == CBump(x.h, "r")
                IN  IF "r" \in h.fail THEN [h |-> y, ok |-> FALSE, err |-> "ValueError"]
                    ELSE [h |-> [y EXCEPT !.cache["r"] = <<"r">> \o y.cache["q"] \o <<ToString(y.count["r"])>>], ok |-> TRUE]
CStep(h, k, do, a) ==
  CASE do = "get" -> LET x == CGet(h, k, a)
                     IN  IF ~x.ok THEN [h |-> x.h, err |-> x.err, val |-> <<>>, same |-> FALSE]
                         ELSE [h |-> [x.h EXCEPT !.last[a] = x.h.count[a]], err |-> "", val |-> x.h.cache[a],
                               same |-> h.last[a] = x.h.count[a] /\ h.cache[a] # <<>>]
    [] do = "del" -> [h |-> [h EXCEPT !.cache[a] = <<>>], err |-> "", val |-> <<>>, same |-> FALSE]
    [] do = "set" -> [h |-> h, err |-> "AttributeError", val |-> <<>>, same |-> FALSE]
    [] do = "fail" -> [h |-> [h EXCEPT !.fail = @ \cup {a}], err |-> "", val |-> <<>>, same |-> FALSE]
    [] do = "unfail" -> [h |-> [h EXCEPT !.fail = @ \ {a}], err |-> "", val |-> <<>>, same |-> FALSE]
    [] do = "base" -> [h |-> [h EXCEPT !.base = @ + 1], err |-> "", val |-> <<>>, same |-> FALSE]
OpCprop(st, e) ==
  LET h == IF e.obj \in DOMAIN st.C THEN st.C[e.obj] ELSE CNew
      x == CStep(h, e.obj, e.do, e.attr)
      o == e.obs
  IN  Res([st EXCEPT !.C = With(@, e.obj, x.h)],
          <<Ck("C30.outcome", o.err = x.err),
            Ck("C30.count", o.count = [i \in 1..4 |-> x.h.count[CAttrs[i]]]),
            CkIf(e.do = "get" /\ x.err = "", "C30.value", Has(o, "val") /\ o.val = x.val),
            CkIf(e.do = "get" /\ x.err = "" /\ e.attr # "z", "C30.identity", Has(o, "ident") /\ o.ident = IF x.same THEN "same" ELSE "new")>>)
\* the cached attributes of a model
OpMcache(st, e) ==
  IF Failed(e) THEN Res(st, <<Ck("C30.model", FALSE)>>)
  ELSE Res(st, Flat([i \in DOMAIN e.obs.attrs |->
         LET a == e.obs.attrs[i]
         IN  <<Ck("C30.modelonce", a.same), Ck("C30.modelreset", a.reset), Ck("C30.modelset", a.set = "AttributeError"),
               Ck("C30.modelother", a.other)>>]))

---------------------------------------------------------------------------
(* Distributions (C32) *)
S0(n) == Sym0(n)
C0(v) == Num0(v)
Add0(a) == [o |-> "+", a |-> a]
Mul0(a) == [o |-> "*", a |-> a]
Pow0(b, k) == [o |-> "^", b |-> b, k |-> k]
Fun0(f, a) == [o |-> "f", f |-> f, a |-> a]
Z0(x, mu, sg) == Mul0(<<Minus(S0(x), S0(mu)), Pow0(S0(sg), -1)>>)
Normal(x, mu, sg) ==
  Mul0(<<Fun0("exp", Mul0(<<C0("-1/2"), Pow0(Z0(x, mu, sg), 2)>>)), Pow0(S0(sg), -1), C0(RInv(RSqrt(RMul("2", PI))))>>)
BiNormal(x, y, mx, my, sx, sy, rho) ==
  LET om == Minus(C0("1"), Pow0(S0(rho), 2))
      qd == Add0(<<Pow0(Z0(x, mx, sx), 2), Pow0(Z0(y, my, sy), 2),
                   Mul0(<<C0("-2"), S0(rho), Z0(x, mx, sx), Z0(y, my, sy)>>)>>)
  IN  Mul0(<<Fun0("exp", Mul0(<<C0("-1/2"), Pow0(om, -1), qd>>)),
             Pow0(Mul0(<<S0(sx), S0(sy), Fun0("sqrt", om)>>), -1), C0(RInv(RMul("2", PI)))>>)
Exponential(x, l) == Mul0(<<S0(l), Fun0("exp", Mul0(<<C0("-1"), S0(l), S0(x)>>))>>)
OpDist(st, e) ==
  LET a == e.args
      d == CASE e.name = "Gaussian" -> Normal(a[1], a[2], a[3])
             [] e.name = "BivariateGaussian" -> BiNormal(a[1], a[2], a[3], a[4], a[5], a[6], a[7])
             [] e.name = "Exp" -> Exponential(a[1], a[2])
      env == [n \in SeqSet(Keys(e.at)) |-> Scalar(Fn(e.at)[n])]
      r == EvalModel(<<[n |-> "$d", e |-> d]>>, env, e.grad, 1)["$d"].j[1]
      t == RMax("1/1000000", RAbs(r.v))
      near(o, x) == RNum(o) /\ RLe(RAbs(RSub(o, x)), RMul("1/1000000000", RMax(t, RAbs(x))))
  IN  IF Failed(e) THEN Res(st, <<Ck("C32.raised", FALSE)>>)
      ELSE Res(st, <<Ck("C32.density", Len(e.obs.out.d) = 1 /\ near(e.obs.out.d[1], r.v)),
                     CkIf(e.grad # <<>>, "C32.gradient",
                          Len(e.obs.grad) = Len(e.grad) /\ \A i \in DOMAIN e.grad : near(e.obs.grad[i], r.g[i]))>>)

---------------------------------------------------------------------------
(* Text (C33) *)
\* value of an expression when every symbol in it has a value of its own
ValueAt(x, at) == LET f == Fn(at) IN Ev(x, [n \in Syms(x) |-> Const(f[n], 0, 0)], 0, 0).v
OpMstr(st, e) ==
  LET m == st.O[e.m]
      PN == ParNames(st)
      c == e.obs.comp
      own(n) == DepsOf(CHOOSE d \in SeqSet(m.defs) : d.n = n)
      vok(n, o) == IF m.kind = "ODE" THEN o.vars = m.ind ELSE o.vars = SortNames(own(n) \ PN)
      pok(n, o) == IF m.kind = "ODE" THEN own(n) \cap PN \subseteq SeqSet(o.pars) /\ SeqSet(o.pars) \subseteq SeqSet(m.ps)
                   ELSE o.pars = SortNames(own(n) \cap PN)
      xok(n, o) == o.val = "none" \/ CloseT(o.val, ValueAt(DefOf(m.defs, n), e.at), RT, "100")
      all(f(_, _)) == Len(c) = Len(m.names) /\ \A i \in DOMAIN m.names : c[i].n \in SeqSet(m.names) /\ f(c[i].n, c[i])
  IN  IF Failed(e) THEN Res(st, <<Ck("C33.modelraised", FALSE)>>)
      ELSE Res(st, <<Ck("C33.components", MapSeq(c, LAMBDA o : o.n) = m.names),
                     Ck("C33.variables", all(vok)), Ck("C33.parameters", all(pok)), Ck("C33.expression", all(xok)),
                     Ck("C33.params", SnapOk(st, e.obs.snap))>>)
OpResstr(st, e) ==
  LET R == st.O[e.r]  F == R.F  b == R.res  o == e.obs
      T == "1/1000000"
      num(s, x) == IF ~RNum(x) THEN s = x ELSE CloseRel(s, x, T) \/ (x = "0" /\ s = "0")
      g == Fn(b.gof)
      z == F.mz[Len(F.mz)]
      loc == IF z = "BasinHopping" THEN F.auto ELSE z
      cons == IF loc \in ConMz THEN F.cons ELSE <<>>
      fixedsame == \A p \in SeqSet(F.m.ps) : st.P[p].fixed = "false" \/ st.P[p].value = R.x[p]
      row(i) == /\ num(o.rows[i][2], b.params[i][2])
                /\ num(o.rows[i][3], b.stdev[i])
      con(i) == LET c == cons[i]
                    val == MapSeq(ConJets(F, c, R.x, 0), LAMBDA w : w.v)
                    x == DefOf(c.defs, c.con)
                IN  /\ o.cons[i].rel = (IF c.ctype = "Equality" THEN "==" ELSE ">=")
                    /\ CloseT(o.cons[i].ask, ValueAt(x, e.at), RT, "100")
                    /\ ~fixedsame \/ CloseSeq(o.cons[i].ans, val, T, "1")
  IN  IF Failed(e) THEN Res(st, <<Ck("C33.resultraised", FALSE)>>)
      ELSE Res(st, Tagged(
           <<Ck("C33.rows", MapSeq(o.rows, LAMBDA r : r[1]) = F.m.ps),
             Ck("C33.values", Len(o.rows) = Len(b.params) /\ \A i \in DOMAIN b.params : row(i)),
             Ck("C33.status", o.status = b.status), Ck("C33.iterations", o.nit = b.nit),
             Ck("C33.minimizer", o.minimizer), Ck("C33.objective", o.objective),
             Ck("C33.gofkeys", Keys(o.gof) = Keys(b.gof)),
             Ck("C33.gof", Keys(o.gof) = Keys(b.gof) =>
                  \A i \in DOMAIN o.gof : CloseSeq(o.gof[i][2], g[o.gof[i][1]].d, T, "1")),
             Ck("C33.constraints", Len(o.cons) = Len(cons) /\ \A i \in DOMAIN cons : con(i)),
             Ck("C33.params", SnapOk(st, o.snap))>>, F.tags))

---------------------------------------------------------------------------
(* Interactive guess (C27) *)
SliderRange(st, n) ==
  LET p == st.P[n]
  IN  <<IF p.min = "none" THEN "0" ELSE p.min, IF p.max = "none" THEN RMul("2", p.value) ELSE p.max>>
LinSpace(a, b, n) == [i \in 1..n |-> IF n = 1 THEN a ELSE RAdd(a, RDiv(RMul(RSub(b, a), RInt(i - 1)), RInt(n - 1)))]
MinSeq(s) == FoldLeft(LAMBDA a, x : RMin(a, x), s[1], s)
GridOf(m, d, n) ==
  LET lo == MinSeq(d)  hi == FoldLeft(LAMBDA a, x : RMax(a, x), d[1], d)
      w == RDiv(RSub(hi, lo), "10")
  IN  LinSpace(IF m.kind = "ODE" THEN lo ELSE RSub(lo, w), RAdd(hi, w), n)
\* linear interpolation between the order statistics
SortNum(s) == SortSeq(s, LAMBDA a, b : RLt(a, b))
Percentile(s, pc) ==
  LET z == SortNum(s)
      h == RDiv(RMul(pc, RInt(Len(z) - 1)), "100")
      k == CHOOSE j \in 1..Len(z) : RLe(RInt(j - 1), h) /\ (j = Len(z) \/ RLt(h, RInt(j)))
  IN  IF k = Len(z) THEN z[k] ELSE RAdd(z[k], RMul(RSub(h, RInt(k - 1)), RSub(z[k + 1], z[k])))
Mean(s) == RDiv(RSum(s), RInt(Len(s)))
GT == "1/1000000"
\* all points of the grid, last variable fastest
RECURSIVE GridPts(_, _)
GridPts(vs, grid) ==
  IF vs = <<>> THEN <<EmptyFn>>
  ELSE LET r == GridPts(Tail(vs), grid)
       IN  Flat([i \in DOMAIN grid[Head(vs)] |-> MapSeq(r, LAMBDA f : With(f, Head(vs), grid[Head(vs)][i]))])
LinesOk(st, G, P2, o) ==
  LET m == G.m
      n == Len(G.grid[m.ind[1]])
      pts == TLCEval(GridPts(m.ind, G.grid))
      arg(v) == [sh |-> <<Len(pts)>>, d |-> [k \in DOMAIN pts |-> pts[k][v]]]
      ev == TLCEval(EvalM(m, [v \in SeqSet(m.ind) \cup SeqSet(m.ps) |-> IF v \in SeqSet(m.ps) THEN Scalar(P2[v].value) ELSE arg(v)], <<>>, 0))
      at(y, k) == LET a == ev[y] IN IF Len(a.j) = 1 THEN a.j[1].v ELSE a.j[k].v
      tol == IF m.kind = "ODE" THEN m.vtol ELSE GT
      pick(x, y, i) == LET ks == SelectSeq(Range1(Len(pts)), LAMBDA k : pts[k][x] = G.grid[x][i])
                       IN  MapSeq(ks, LAMBDA k : at(y, k))
      one(l) ==
        /\ CloseSeq(l.xs, G.grid[l.x], GT, "1")
        /\ Len(l.ys) = n
        /\ IF ~l.nd THEN \A i \in 1..n : CloseT(l.ys[i], at(l.y, i), tol, "1")
           ELSE /\ Len(l.segs) = n
                /\ \A i \in 1..n :
                     LET s == TLCEval(pick(l.x, l.y, i))
                     IN  /\ CloseT(l.ys[i], Mean(s), GT, "1")
                         /\ CloseSeq(l.segs[i][1], <<G.grid[l.x][i], Percentile(s, "5")>>, GT, "1")
                         /\ CloseSeq(l.segs[i][2], <<G.grid[l.x][i], Percentile(s, "95")>>, GT, "1")
  IN  /\ {<<o.lines[i].x, o.lines[i].y>> : i \in DOMAIN o.lines} = SeqSet(m.ind) \X SeqSet(m.dep)
      /\ Len(o.lines) = Len(m.ind) * Len(m.dep)
      /\ \A i \in DOMAIN o.lines : one(o.lines[i])
GuessClauses(st, G, o) ==
  LET m == G.m
      row(i) == o.sliders[i]
      rng(i) == LET r == G.range[row(i)[1]] IN CloseT(row(i)[3], r[1], "1/1000000000000", "1") /\ CloseT(row(i)[4], r[2], "1/1000000000000", "1")
  IN  <<Ck("C27.sliders", Keys(o.sliders) = m.ps),
        Ck("C27.values", \A i \in DOMAIN o.sliders : row(i)[2] = st.P[row(i)[1]].value),
        Ck("C27.ranges", \A i \in DOMAIN o.sliders : rng(i)),
        Ck("C27.params", SnapOk(st, o.snap)),
        Ck("C27.grid", \A v \in SeqSet(m.ind) : \E i \in DOMAIN o.grid : o.grid[i][1] = v /\ CloseSeq(o.grid[i][2], G.grid[v], GT, "1")),
        Ck("C27.lines", LinesOk(st, G, st.P, o)),
        Ck("C27.text", Keys(o.guesses) = m.ps /\ \A i \in DOMAIN o.guesses : CloseRel(o.guesses[i][2], st.P[o.guesses[i][1]].value, GT)
                       \/ o.guesses[i][2] = st.P[o.guesses[i][1]].value),
        Ck("C27.scatter", \A i \in DOMAIN o.scatter : LET s == o.scatter[i] IN
              /\ CloseSeq(s.xs, G.data[s.x].d, GT, "1") /\ CloseSeq(s.ys, G.data[s.y].d, GT, "1"))>>
OpGuess(st, e) ==
  LET m == st.O[e.m]
      data == [v \in SeqSet(Keys(e.kw)) |-> DRec(Fn(e.kw)[v])]
      \* a slider shows a value within its range
      clip(n) == LET r == SliderRange(st, n) IN RMin(RMax(st.P[n].value, r[1]), r[2])
      st1 == [st EXCEPT !.P = [n \in DOMAIN @ |-> IF n \in SeqSet(m.ps) THEN [@[n] EXCEPT !.value = clip(n)] ELSE @[n]]]
      G == TLCEval([t |-> "guess", m |-> m, data |-> data,
            grid |-> [v \in SeqSet(m.ind) |-> GridOf(m, data[v].d, e.npts)],
            range |-> [n \in SeqSet(m.ps) |-> SliderRange(st, n)]])
  IN  IF Failed(e) THEN Res(st, <<Ck("C27.make", FALSE)>>)
      ELSE Res(SetObj(st1, e.id, G), GuessClauses(st1, G, e.obs))
OpSlide(st, e) ==
  LET G == st.O[e.g]
      st1 == [st EXCEPT !.P[e.n].value = e.v]
  IN  IF Failed(e) THEN Res(st, <<Ck("C27.slide", FALSE)>>)
      ELSE Res(st1, GuessClauses(st1, G, e.obs))
OpCloseguess(st, e) == Res(st, <<>>)

---------------------------------------------------------------------------
(* Clauses that count for further properties: objects which were pickled,    *)
(* models made of callables.                                                *)
NumKinds == {"CallableNumericalModel", "GradientNumericalModel"}
ModelOf(o) == CASE o.t \in {"model", "con"} -> o
                [] o.t = "obj" -> o.m
                [] o.t = "fit" -> o.m
                [] o.t = "res" -> o.F.m
                [] OTHER -> [kind |-> "none"]
IsNumerical(o) == /\ ModelOf(o).kind \in NumKinds
                  /\ (o.t # "fit" \/ ~o.direct)
                  /\ (o.t # "res" \/ ~o.F.direct)
=============================================================================
