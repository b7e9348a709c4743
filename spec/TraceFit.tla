------------------------------ MODULE TraceFit ------------------------------
(* Fits: binding of data, choice of objective and minimiser, objectives     *)
(* with derivatives, calls to the optimiser, results.  The optimiser is the *)
(* environment: in scripted runs it answers what the scenario says.         *)
(* C11-C26, C31.                                                            *)
EXTENDS TraceModel

Sg(v) == "sigma_" \o v
Range1(n) == [i \in 1..n |-> i]
Tagged(v, tags) == v \o Flat([t \in DOMAIN tags |->
                     LET w == SelectSeq(v, LAMBDA c : c[1] # "C24.multidof")
                     IN  [i \in DOMAIN w |-> <<tags[t] \o "." \o w[i][1], w[i][2]>>]])
HasJac(m) == m.kind \in {"Model", "GradientModel", "HessianModel", "GradientNumericalModel", "ODE"}
HasHess(m) == m.kind \in {"Model", "HessianModel"}
JTol(m) == JacTol(m)
ObjScale(m) == IF m.kind = "ODE" THEN "1" ELSE "1000"

---------------------------------------------------------------------------
(* Data *)
NoData == [k |-> "none", sh |-> <<>>, d |-> <<>>]
DRec(d) == IF d.k = "none" THEN NoData ELSE [k |-> "arr", sh |-> d.sh, d |-> d.d]
Ones(sh, v) == [k |-> "arr", sh |-> sh, d |-> [i \in 1..Prod(sh) |-> v]]
SameData(o, d) == IF d.k = "none" THEN o.k = "none"
                  ELSE o.k = "arr" /\ o.sh = d.sh /\ CloseSeq(o.d, d.d, "1/1000000000000", "1")
ExtraInd(m, cons) ==
  FoldLeft(LAMBDA acc, c : acc \o SelectSeq(c.ind, LAMBDA v : v \notin SeqSet(acc) \cup SeqSet(m.ind) \cup SeqSet(m.dep)),
           <<>>, cons)
Required(m, cons) == m.ind \o m.dep \o ExtraInd(m, cons)
Optional(m) == MapSeq(m.dep, Sg)
DataOrder(m, cons) == Required(m, cons) \o Optional(m)
Given(order, pos, kw) == {order[i] : i \in 1..(IF Len(pos) < Len(order) THEN Len(pos) ELSE Len(order))}
                         \cup SeqSet(Keys(kw))
GivenOk(order, pos, kw) ==
  LET got == {order[i] : i \in 1..Len(pos)}
  IN  /\ Len(pos) <= Len(order) /\ Unique(Keys(kw)) /\ SeqSet(Keys(kw)) \subseteq SeqSet(order)
      /\ got \cap SeqSet(Keys(kw)) = {}
GivenVal(order, pos, kw, n) ==
  IF \E i \in 1..Len(pos) : order[i] = n THEN DRec(pos[IndexOf(order, n)])
  ELSE IF n \in SeqSet(Keys(kw)) THEN DRec(Fn(kw)[n]) ELSE NoData
SigmaVal(s, y) == IF y.k = "none" THEN s
                  ELSE IF s.k = "none" THEN Ones(y.sh, "1")
                  ELSE IF s.sh = <<>> THEN Ones(y.sh, s.d[1]) ELSE s
BindData(m, cons, pos, kw) ==
  LET order == DataOrder(m, cons)
      raw == TLCEval([n \in SeqSet(order) |-> GivenVal(order, pos, kw, n)])
      sg == [v \in SeqSet(Optional(m)) |->
               SigmaVal(raw[v], raw[CHOOSE y \in SeqSet(m.dep) : Sg(y) = v])]
  IN  TLCEval(sg @@ raw)

---------------------------------------------------------------------------
(* Objectives: an objective record o has the class, the model and the data *)
Cls2Prop(c) == CASE c = "LeastSquares" -> "C13" [] c = "VectorLeastSquares" -> "C14"
                 [] c = "LogLikelihood" -> "C15" [] c = "MinimizeModel" -> "C16"
ObjArgs(o, pv) == [n \in SeqSet(o.m.ind) \cup SeqSet(o.m.ps) |->
                     IF n \in SeqSet(o.m.ps) THEN Scalar(pv[n]) ELSE [sh |-> o.data[n].sh, d |-> o.data[n].d]]
Present(o) == SelectSeq(o.m.dep, LAMBDA v : o.data[v].k # "none")
\* component brought to the shape of its data: new axes on the right, then broadcast
Shaped(c, ysh) ==
  LET csh == AtLeast1(c.sh)
      pad == IF Len(ysh) > Len(csh) THEN csh \o [i \in 1..(Len(ysh) - Len(csh)) |-> 1] ELSE csh
  IN  TLCEval([k \in 1..Prod(ysh) |-> c.j[BIdx(k, ysh, pad)]])
SumJ(s, n, L) == FoldLeft(LAMBDA a, x : TLCEval(JAdd(a, x, L)), Const("0", n, L), s)
ScaleJ(x, c, L) == [v |-> RMul(x.v, c), g |-> IF L >= 1 THEN VScale(c, x.g) ELSE <<>>,
                    h |-> IF L >= 2 THEN MScale(c, x.h) ELSE <<>>]
MinusC(x, c) == [x EXCEPT !.v = RSub(@, c)]
\* residuals model - data of one component, as jets
Resid(o, ev, v) ==
  LET y == o.data[v]  c == Shaped(ev[v], y.sh)
  IN  TLCEval([k \in DOMAIN c |-> MinusC(c[k], y.d[k])])
LSComp(o, ev, v, n, L) ==
  LET r == Resid(o, ev, v)  s == o.data[Sg(v)]
  IN  SumJ([k \in DOMAIN r |-> ScaleJ(JPow(r[k], 2, L), RInv(RMul("2", RSqr(s.d[k]))), L)], n, L)
EvObj(o, pv, L) == TLCEval(EvalM(o.m, ObjArgs(o, pv), o.m.ps, L))
\* value with derivatives in all parameters: a sequence of jets (one unless the
\* objective has several values)
ObjJets(o, pv, L) ==
  LET n == Len(o.m.ps)
      ev == EvObj(o, pv, L)
  IN  CASE o.cls = "LeastSquares" ->
             <<SumJ([i \in DOMAIN Present(o) |-> LSComp(o, ev, Present(o)[i], n, L)], n, L)>>
        [] o.cls = "LogLikelihood" ->
             <<ScaleJ(SumJ(Flat([i \in DOMAIN o.m.dep |->
                  LET c == ev[o.m.dep[i]].j IN [k \in DOMAIN c |-> JFun("log", c[k], L)]]), n, L), "-1", L)>>
        [] o.cls = "MinimizeModel" -> ev[o.m.dep[1]].j
        [] o.cls = "VectorLeastSquares" ->
             LET P == Present(o)
                 q(v) == LET r == Resid(o, ev, v)  s == o.data[Sg(v)]
                         IN  TLCEval([k \in DOMAIN r |-> ScaleJ(JPow(r[k], 2, L), RInv(RSqr(s.d[k])), L)])
                 Q == [i \in DOMAIN P |-> q(P[i])]
             IN  TLCEval([k \in DOMAIN Q[1] |-> LET t == SumJ([i \in DOMAIN Q |-> Q[i][k]], n, L)
                      IN  IF t.v = "0" THEN Const("0", n, L) ELSE JFun("sqrt", t, L)])
AllPos(o, pv) == LET ev == EvObj(o, pv, 0)
                 IN  \A v \in SeqSet(o.m.dep) : \A k \in DOMAIN ev[v].j : RLt("0", ev[v].j[k].v)
\* points where the objective is defined and smooth enough to compare
ObjOk(o, pv, what) ==
  CASE o.cls = "LogLikelihood" -> AllPos(o, pv)
    [] o.cls = "VectorLeastSquares" /\ what # "val" ->
         \A i \in DOMAIN ObjJets(o, pv, 0) : LET x == ObjJets(o, pv, 0)[i].v IN x = "0" \/ RLt("1/1000", x)
    [] OTHER -> TRUE
ObjVals(o, pv) == MapSeq(ObjJets(o, pv, 0), LAMBDA x : x.v)
HasObjJac(o) == HasJac(o.m)
HasObjHess(o) == HasHess(o.m) /\ o.cls # "VectorLeastSquares"

FreeIdx(st, ps) == SelectSeq(Range1(Len(ps)), LAMBDA i : st.P[ps[i]].fixed = "false")
\* parameter values with the free ones taken from x, fixed ones at their value
At(st, ps, x) ==
  LET fr == FreeOf(st, ps)
  IN  [p \in SeqSet(ps) |-> IF st.P[p].fixed = "true" THEN st.P[p].value ELSE x[IndexOf(fr, p)]]
CurVals(st, ps) == [p \in SeqSet(ps) |-> st.P[p].value]
FreeVals(st, ps) == MapSeq(FreeOf(st, ps), LAMBDA p : st.P[p].value)
AnyFixed(st, ps) == \E p \in SeqSet(ps) : st.P[p].fixed = "true"

\* events on an objective
OpMkobj(st, e) ==
  LET m == st.O[e.m]
      o == [t |-> "obj", cls |-> e.cls, m |-> m, data |-> [n \in SeqSet(Keys(e.data)) |-> DRec(Fn(e.data)[n])],
            tags |-> Get(e, "tags", <<>>)]
  IN  IF e.cls = "MinimizeModel" /\ Len(m.dep) > 1 THEN Res(st, <<Ck("C16.scalar", Failed(e))>>)
      ELSE IF Failed(e) THEN Res(st, <<Ck(Cls2Prop(e.cls) \o ".make", FALSE)>>)
      ELSE Res(SetObj(st, e.id, o), <<>>)
ObjOf(x) == IF x.t = "obj" THEN x ELSE x.o
(* Objectives are equal when they are of the same class, and have the same  *)
(* model and the same data (C35).  Data which differ by less than numbers in *)
(* a computer do are not told apart.                                         *)
SameArr(a, b) ==
  IF a.k = "none" \/ b.k = "none" THEN (IF a.k = b.k THEN "yes" ELSE "no")
  ELSE IF a.sh # b.sh THEN "no"
  ELSE IF \E i \in DOMAIN a.d : ~RNum(a.d[i]) \/ ~RNum(b.d[i]) THEN "unknown"
  ELSE IF a.d = b.d THEN "yes"
  ELSE IF CloseSeq(a.d, b.d, "1/1000", "1") THEN "unknown" ELSE "no"
SameDatas(a, b) ==
  LET A == {n \in DOMAIN a : a[n].k # "none"}  B == {n \in DOMAIN b : b[n].k # "none"}
  IN  IF A # B THEN "no"
      ELSE IF DOMAIN a # DOMAIN b THEN AllSame({"unknown"} \cup {SameArr(a[n], b[n]) : n \in A})
      ELSE AllSame({SameArr(a[n], b[n]) : n \in A})
SameObj(o, p) == IF o.cls # p.cls THEN "no" ELSE AllSame({SameM(o.m, p.m), SameDatas(o.data, p.data)})
OpOeq(st, e) ==
  IF Get(e, "sym", FALSE)
  THEN Res(st, <<Ck("C35.other", ~Failed(e) /\ EqOk(e.obs, "no"))>>)
  ELSE LET r == SameObj(ObjOf(st.O[e.x]), ObjOf(st.O[e.y]))
       IN  Res(st, IF r = "unknown" THEN <<Sk("C35.objective"), Ck("C35.compares", ~Failed(e))>>
                   ELSE <<Ck("C35.objective", ~Failed(e) /\ EqOk(e.obs, r))>>)
OpObj(st, e) ==
  LET X == st.O[e.f]  o == ObjOf(X)  ps == o.m.ps  n == Len(ps)
      C == Cls2Prop(o.cls)
      kwf == Fn(Get(e, "kw", <<>>))
      fr == FreeOf(st, ps)
      at == Get(e, "at", <<>>)
      pv == [p \in SeqSet(ps) |-> IF st.P[p].fixed = "true" THEN st.P[p].value
                                  ELSE IF IndexOf(fr, p) <= Len(at) THEN at[IndexOf(fr, p)] ELSE kwf[p]]
      sc == ObjScale(o.m)
      vs == <<C>> \o (IF AnyFixed(st, ps) THEN <<"C17">> ELSE <<>>) \o X.tags
      Cks(nm, b) == [i \in DOMAIN vs |-> Ck(vs[i] \o "." \o nm, b)]
      w == e.what
  IN  IF ~ObjOk(o, pv, w) THEN Res(st, <<Sk(C \o ".point")>>)
      ELSE IF Failed(e) THEN Res(st, Cks("raised",
             \/ w \in {"jac", "hess"} /\ ~HasJac(o.m) /\ o.cls # "MinimizeModel"
             \/ w = "hess" /\ ~HasObjHess(o)))
      ELSE IF w = "val" THEN
             LET V == ObjVals(o, pv)
             IN  Res(st, Cks("value", ~e.obs.isnone /\ CloseSeq(e.obs.out.d, V, VTol(o.m), sc))
                      \o IF o.cls = "VectorLeastSquares"
                         THEN <<Ck("C14.nonnegative", \A i \in DOMAIN e.obs.out.d : RLe("0", e.obs.out.d[i])),
                                Ck("C14.square", Len(e.obs.out.d) = Len(V) =>
                                    \A i \in DOMAIN V : CloseT(RSqr(e.obs.out.d[i]), RSqr(V[i]), VTol(o.m), sc))>>
                         ELSE IF o.cls = "LeastSquares" THEN <<Ck("C13.scalar", Len(e.obs.out.d) = 1)>> ELSE <<>>)
      ELSE IF w = "comp" THEN
             LET ev == EvObj(o, pv, 0)
                 cv(v) == IF o.data[v].k = "none" THEN "0" ELSE LSComp(o, ev, v, 0, 0).v
             IN  IF o.cls # "LeastSquares" THEN Res(st, <<Sk(C \o ".components")>>)
                 ELSE Res(st, Cks("components", CloseSeq(e.obs.out.d, MapSeq(o.m.dep, cv), VTol(o.m), sc)))
      ELSE IF w = "jac" THEN
             IF e.obs.isnone THEN Res(st, Cks("jacnone", ~HasJac(o.m) /\ o.cls = "MinimizeModel"))
             ELSE LET J == ObjJets(o, pv, 1)
                      exp == IF o.cls = "VectorLeastSquares" THEN Flat(MapSeq(J, LAMBDA x : x.g))
                             ELSE IF o.cls = "MinimizeModel" THEN Flat([i \in 1..n |-> MapSeq(J, LAMBDA x : x.g[i])])
                             ELSE J[1].g
                  IN  Res(st, Cks("gradient", CloseSeq(e.obs.out.d, exp, JTol(o.m), sc)))
      ELSE IF e.obs.isnone THEN Res(st, Cks("hessnone", ~HasObjHess(o)))
      ELSE LET H == ObjJets(o, pv, 2)
               exp == Flat([i \in 1..n |-> Flat([j \in 1..n |-> MapSeq(H, LAMBDA x : x.h[i][j])])])
           IN  Res(st, Cks("hessian", CloseSeq(e.obs.out.d, exp, JTol(o.m), "10000")))

---------------------------------------------------------------------------
(* Choice of objective and minimiser (C21) *)
HasBound(st, p) == st.P[p].fixed = "true" \/ st.P[p].min # "none" \/ st.P[p].max # "none"
AutoMz(st, m, cons) == IF cons # <<>> THEN "SLSQP"
                       ELSE IF \E p \in SeqSet(m.ps) : HasBound(st, p) THEN "LBFGSB" ELSE "BFGS"
SelMz(st, e, m, cons) == IF e.mz = <<>> THEN <<AutoMz(st, m, cons)>> ELSE e.mz
SelCls(st, e, m, given) ==
  CASE e.objective = "instance" -> st.O[e.oid].cls
    [] e.objective = "callable" -> "MinimizeModel"
    [] e.objective # "none" -> e.objective
    [] ~e.chain /\ e.mz = <<"MINPACK">> -> "VectorLeastSquares"
    [] Len(m.names) = 1 /\ m.ind = <<>> /\ m.dep[1] \notin given -> "MinimizeModel"
    [] OTHER -> "LeastSquares"

FitModel(st, e) ==
  IF Has(e, "m") THEN st.O[e.m]
  ELSE LET defs == IF Get(e, "form", "dict") = "scalar" /\ ~Failed(e)
                   THEN <<[n |-> e.obs.mdep[1], e |-> e.defs[1].e]>> ELSE e.defs
       IN  Mk("Model", defs, Params(defs, ParNames(st)), st)
FitCons(st, e, m) ==
  [i \in DOMAIN e.cons |-> IF Has(e.cons[i], "id") THEN st.O[e.cons[i].id]
                           ELSE ConModel(st, m, e.cons[i], "$con" \o ToString(i))]
ConsOk(st, e, m) == \A i \in DOMAIN e.cons :
  IF Has(e.cons[i], "id") THEN TRUE ELSE ConOk(st, m, e.cons[i])

FitClauses(st, F, o) ==
  LET m == F.m  data == F.data
      obsd == Fn([i \in DOMAIN o.data |-> <<o.data[i][1], o.data[i][2]>>])
      con == UNION {SeqSet(o.con[i]) : i \in DOMAIN o.con}
      other == con \cup {Sg(x) : x \in con} \cup UNION {SeqSet(F.cons[i].dep) \cup {Sg(x) : x \in SeqSet(F.cons[i].dep)} : i \in DOMAIN F.cons}
      dd(vs) == [i \in DOMAIN vs |-> vs[i]]
      pairs(s, vs) == Keys(s) = vs /\ \A i \in DOMAIN vs : SameData(s[i][2], data[vs[i]])
      sg == MapSeq(m.dep, Sg)
  IN  <<Ck("C11.complete", SeqSet(Keys(o.data)) \ other = DOMAIN data /\ Unique(Keys(o.data))),
        Ck("C11.bound", \A n \in DOMAIN data \ SeqSet(sg) : n \in DOMAIN obsd /\ SameData(obsd[n], data[n])),
        Ck("C11.addressed", \A i \in DOMAIN o.data : o.data[i][1] \in DOMAIN data => o.data[i][3] = "sym"),
        Ck("C11.independent", pairs(o.ind, m.ind)),
        Ck("C11.dependent", pairs(o.dep, m.dep)),
        Ck("C12.sigma", pairs(o.sgm, sg)),
        Ck("C12.bound", \A n \in SeqSet(sg) : n \in DOMAIN obsd /\ SameData(obsd[n], data[n])),
        Ck("C12.absolute", o.absig = F.absig),
        Ck("C24.absolute", o.absig = F.absig),
        Ck("C21.objective", o.objective = F.cls),
        Ck("C21.minimizer", o.minimizer = F.mz),
        Ck("C21.chain", o.chain = F.chain),
        Ck("C19.count", o.ncons = Len(F.cons)),
        Ck("C17.guesses", CloseSeq(o.guess, FreeVals(st, m.ps), "1/1000000000000", "1")),
        Ck("C22.params", SnapOk(st, o.snap)),
        Ck("C22.callersdata", o.userok), Ck("C12.callersdata", o.userok), Ck("C22.callersoptions", o.optsame),
        Ck("C22.guesses", CloseSeq(o.guess, FreeVals(st, m.ps), "1/1000000000000", "1"))>>

OpFit(st, e) ==
  LET m == FitModel(st, e)
      consok == ConsOk(st, e, m)
      cons == TLCEval(FitCons(st, e, m))
      order == DataOrder(m, IF consok THEN cons ELSE <<>>)
      given == Given(order, e.args, e.kw)
      cls == SelCls(st, e, m, given)
      own == e.objective = "callable"
      nodep == cls \in {"MinimizeModel", "LogLikelihood"} /\ ~own
      depish == SeqSet(m.dep) \cup SeqSet(Optional(m))
      need == SeqSet(Required(m, cons)) \ (IF nodep THEN SeqSet(m.dep) ELSE {})
  IN  IF ~consok THEN Res(st, <<Ck("C19.refuse", Failed(e)), Ck("C07.fitrefuse", Failed(e))>>)
      ELSE IF ~GivenOk(order, e.args, e.kw) \/ ~(need \subseteq given)
        THEN Res(st, <<Ck("C11.refuse", Failed(e))>>)
      ELSE IF nodep /\ given \cap depish # {}
        THEN Res(st, <<Ck("C11.refusedensity", Failed(e)),
                       Ck((IF cls = "LogLikelihood" THEN "C15" ELSE "C16") \o ".refuse", Failed(e))>>)
      ELSE IF cls = "MinimizeModel" /\ ~own /\ Len(m.dep) > 1
        THEN Res(st, <<Ck("C16.scalar", Failed(e))>>)
      ELSE IF Failed(e) THEN Res(st, Tagged(<<Ck("C11.accept", FALSE), Ck("C21.accept", FALSE), Ck("C12.accept", FALSE)>>, Get(e, "tags", <<>>)))
      ELSE LET data == BindData(m, cons, e.args, e.kw)
               absig == IF e.abs # "none" THEN e.abs = "true"
                        ELSE \E v \in SeqSet(Optional(m)) :
                               v \in given /\ GivenVal(order, e.args, e.kw, v).k # "none"
               om == IF own THEN [t |-> "model", kind |-> "CallableNumericalModel",
                                  defs |-> <<[n |-> "$o", e |-> e.cexpr]>>, ps |-> m.ps,
                                  ind |-> <<>>, dep |-> <<"$o">>, names |-> <<"$o">>] ELSE m
               o == IF e.objective = "instance" THEN st.O[e.oid]
                    ELSE [t |-> "obj", cls |-> cls, m |-> om, data |-> data, tags |-> <<>>]
               F == TLCEval([t |-> "fit", m |-> m, data |-> data, cls |-> cls, o |-> o,
                     mz |-> SelMz(st, e, m, cons), chain |-> e.chain, cons |-> cons, absig |-> absig,
                     auto |-> AutoMz(st, m, cons),
                     tags |-> Get(e, "tags", <<>>), direct |-> FALSE, hist |-> <<>>])
           IN  Res(SetObj(st, e.id, F), Tagged(FitClauses(st, F, e.obs), F.tags))
OpFitobs(st, e) ==
  LET F == st.O[e.f]
  IN  IF Failed(e) THEN Res(st, <<Ck("C22.fitobs", FALSE)>>)
      ELSE LET v == FitClauses(st, F, e.obs)
           IN  Res(st, Tagged(v, F.tags) \o <<Ck("C22.fitkept", \A i \in DOMAIN v : v[i][2] # "bad")>>)

\* a minimiser used directly on a callable, a model or an objective
OpMini(st, e) ==
  LET ps == e.params
      m == IF Has(e, "m") THEN st.O[e.m]
           ELSE [t |-> "model", kind |-> "CallableNumericalModel", defs |-> <<[n |-> "$o", e |-> e.cexpr]>>,
                 ps |-> ps, ind |-> <<>>, dep |-> <<"$o">>, names |-> <<"$o">>]
      o == IF Has(e, "oid") THEN st.O[e.oid]
           ELSE [t |-> "obj", cls |-> "MinimizeModel", m |-> m, data |-> EmptyFn, tags |-> <<>>]
      F == [t |-> "fit", m |-> m, data |-> EmptyFn, cls |-> o.cls, o |-> o, mz |-> <<e.cls>>, chain |-> FALSE,
            cons |-> <<>>, absig |-> FALSE, auto |-> e.local,
            tags |-> Get(e, "tags", <<>>), direct |-> TRUE, hist |-> <<>>, jac |-> e.jac]
  IN  IF Failed(e) THEN Res(st, <<Ck("C16.minimizer", FALSE)>>)
      ELSE Res(SetObj(st, e.id, F), <<Ck("C17.guesses", CloseSeq(e.obs.guess, FreeVals(st, ps), "1/1000000000000", "1"))>>)

---------------------------------------------------------------------------
(* Calls to the optimiser *)
Api(z) == CASE z = "MINPACK" -> "least_squares" [] z = "DifferentialEvolution" -> "differential_evolution"
            [] z = "BasinHopping" -> "basinhopping" [] OTHER -> "minimize"
Method(z) == CASE z = "LBFGSB" -> "L-BFGS-B" [] z = "NelderMead" -> "Nelder-Mead" [] z = "TrustConstr" -> "trust-constr"
               [] z = "MINPACK" -> "trf" [] z = "DifferentialEvolution" -> "none" [] OTHER -> z
BoundedMz == {"SLSQP", "LBFGSB", "TrustConstr", "DifferentialEvolution", "MINPACK"}
ConMz == {"SLSQP", "COBYLA", "TrustConstr"}
GradMz == {"BFGS", "SLSQP", "LBFGSB", "TrustConstr", "MINPACK"}
FitHasJac(F) == IF F.direct THEN F.jac ELSE HasObjJac(F.o)
FitHasHess(F) == ~F.direct /\ HasObjHess(F.o)
JacKind(F, z) == IF z \notin GradMz THEN "none"
                 ELSE IF FitHasJac(F) THEN "callable"
                 ELSE IF z \in {"TrustConstr", "MINPACK"} THEN "cs" ELSE "none"
HessKind(F, z) == IF z # "TrustConstr" THEN "none"
                  ELSE IF FitHasHess(F) THEN "callable"
                  ELSE IF FitHasJac(F) THEN "cs" ELSE "update"

\* names under which options of a chain are given
ChainName(mz, i) ==
  LET k == Cardinality({j \in 1..i : mz[j] = mz[i]})
  IN  IF k = 1 THEN mz[i] ELSE mz[i] \o "_" \o ToString(k)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* options [key, text] under a prefix
Under(opts, p) == LET s == SelectSeq(opts, LAMBDA x : StartsWith(x[1], p))
                  IN  [i \in DOMAIN s |-> <<SubSeq(s[i][1], Len(p) + 1, Len(s[i][1])), s[i][2]>>]
NotUnder(opts, p) == SelectSeq(opts, LAMBDA x : ~StartsWith(x[1], p))
Defaults(z) ==
  CASE z = "DifferentialEvolution" ->
         <<<<"strategy", JsonS("rand1bin")>>, <<"popsize", JsonS("40")>>,
           <<"mutation", "[" \o JsonS("423/1000") \o ", " \o JsonS("1053/1000") \o "]">>,
           <<"recombination", JsonS("19/20")>>, <<"polish", "false">>>>
    [] z = "TrustConstr" -> <<<<"tol", JsonS("1/1000000000")>>, <<"options.sparse_jacobian", "false">>>>
    [] z \in {"BasinHopping", "MINPACK"} -> <<>>
    [] OTHER -> <<<<"tol", JsonS("1/1000000000")>>>>
\* values which the optimiser takes anyhow: handing them over makes no difference
OptFn(s, defs) == Fn(SelectSeq(s, LAMBDA x : <<x[1], x[2]>> \notin SeqSet(defs)))
ExpOpts(z, given) ==
  LET g == IF z = "BasinHopping" THEN NotUnder(given, "minimizer_kwargs.") ELSE given
      d == SelectSeq(Defaults(z), LAMBDA x : \A i \in DOMAIN g : g[i][1] # x[1])
  IN  SelectSeq(g, LAMBDA x : x[1] \notin {"method", "jacobian"}) \o d

BoundsOf(st, ps) == MapSeq(FreeOf(st, ps), LAMBDA p : <<st.P[p].min, st.P[p].max>>)
BoundsSame(o, b) == IF o = <<>> THEN \A i \in DOMAIN b : b[i] = <<"none", "none">>
                    ELSE /\ Len(o) = Len(b)
                         /\ \A i \in DOMAIN b : \A k \in 1..2 :
                              IF b[i][k] = "none" THEN o[i][k] = "none"
                              ELSE o[i][k] # "none" /\ CloseT(o[i][k], b[i][k], "1/1000000000000", "1")

\* value, Jacobian and Hessian of a constraint at a point of the free parameters
ConArgs(F, c, pv) == [n \in SeqSet(c.ind) \cup SeqSet(c.ps) |->
                        IF n \in SeqSet(c.ps) THEN Scalar(pv[n]) ELSE [sh |-> F.data[n].sh, d |-> F.data[n].d]]
ConJets(F, c, pv, L) == TLCEval(EvalM(c, ConArgs(F, c, pv), c.ps, L)[c.con].j)
ConClauses(st, F, call, z, probes) ==
  LET fi == FreeIdx(st, F.m.ps)
      n == Len(F.cons)
      C(i) == F.cons[i]
      V(i, p) == ConJets(F, C(i), At(st, F.m.ps, probes[p]), IF z = "TrustConstr" THEN 2 ELSE 1)
      okfun(i) == LET o == call.cons[i].fun IN Len(o) = Len(probes) /\ \A p \in DOMAIN probes :
                    CloseSeq(o[p], MapSeq(V(i, p), LAMBDA x : x.v), RT, "100")
      okjac(i) == LET o == call.cons[i].jac IN Len(o) = Len(probes) /\ \A p \in DOMAIN probes :
                    CloseSeq(o[p], Flat(MapSeq(V(i, p), LAMBDA x : SubVec(x.g, fi))), RT, "100")
      okhess(i) == LET o == call.cons[i].hess IN Len(o) = Len(probes) /\ \A p \in DOMAIN probes :
                    LET v == V(i, p) IN Len(v) # 1 \/
                       CloseMat(o[p], MScale("2", SubMat(v[1].h, fi, fi)), RT, "100")
      ty(i) == IF C(i).ctype = "Equality" THEN "eq" ELSE "ineq"
      all(f(_)) == Len(call.cons) = n => \A i \in 1..n : f(i)
      oj(i) == IF HasJac(C(i)) /\ z # "COBYLA" THEN okjac(i) ELSE call.cons[i].jac = <<>>
      oh(i) == IF HasHess(C(i)) /\ z = "TrustConstr" THEN okhess(i) ELSE call.cons[i].hess = <<>>
      ot(i) == call.cons[i].type = ty(i)
  IN  <<Ck("C19.all", Len(call.cons) = n),
        Ck("C19.type", all(ot)),
        Ck("C19.value", all(okfun)),
        Ck("C19.gradient", all(oj)),
        Ck("C19.hessian", all(oh))>>

\* one call to the optimiser by minimiser z of fit F, started from x0
CallClauses(st, F, call, z, x0, given, probes, i) ==
  LET glob == z \in {"DifferentialEvolution", "BasinHopping"}
      loc == IF z = "BasinHopping" THEN F.auto ELSE z
      mkg == IF z = "BasinHopping" THEN Under(given, "minimizer_kwargs.") ELSE <<>>
      over(k) == \E j \in DOMAIN mkg : mkg[j][1] = k
      mkf == Fn(mkg)
      ps == F.o.m.ps
      fi == FreeIdx(st, ps)
      o == F.o
      C == Cls2Prop(o.cls)
      fx == AnyFixed(st, ps)
      both(nm, b) == <<Ck("C17." \o nm, b), Ck("C22." \o nm, b), Ck("C20." \o nm, b)>>
                       \o (IF glob THEN <<Ck("C31." \o nm, b)>> ELSE <<>>)
                       \o (IF F.chain THEN <<Ck("C23." \o nm, b)>> ELSE <<>>)
      okp(p, w) == ObjOk(o, At(st, ps, probes[p]), w)
      ofun(p) == okp(p, "val") =>
                   CloseSeq(call.fun[p], ObjVals(o, At(st, ps, probes[p])), VTol(o.m), ObjScale(o.m))
      ojac(p) == LET J == ObjJets(o, At(st, ps, probes[p]), 1)
                 IN  okp(p, "jac") =>
                     IF o.cls = "VectorLeastSquares"
                     THEN CloseMat(call.jac[p], MapSeq(J, LAMBDA x : SubVec(x.g, fi)), JTol(o.m), ObjScale(o.m))
                     ELSE CloseSeq(call.jac[p], SubVec(J[1].g, fi), JTol(o.m), ObjScale(o.m))
      ohess(p) == okp(p, "hess") => CloseMat(call.hess[p], SubMat(ObjJets(o, At(st, ps, probes[p]), 2)[1].h, fi, fi),
                            JTol(o.m), "10000")
      jk == JacKind(F, loc)
      exo == OptFn(ExpOpts(z, given), call.defs)
      cons == IF loc \in ConMz THEN ConClauses(st, F, call, loc, probes) ELSE <<Ck("C19.none", call.cons = <<>>)>>
  IN  <<Ck("C21.api", call.api = Api(z)),
        Ck("C21.method", over("method") \/ call.method = Method(loc) \/ \E j \in DOMAIN given : given[j][1] = "method"),
        Ck("C21.gradient", over("jac") \/ call.jackind = jk),
        Ck("C21.hessian", call.hesskind = HessKind(F, loc)),
        Ck("C22.options", OptFn(call.opts, call.defs) = exo)>>
      \o both("x0", z = "DifferentialEvolution" \/ CloseSeq(call.x0, x0, "1/1000000000000", "1"))
      \o both("objective", Len(call.fun) = Len(probes) /\ \A p \in DOMAIN probes : ofun(p))
      \o <<Ck(C \o ".probe", Len(call.fun) = Len(probes) /\ \A p \in DOMAIN probes : ofun(p))>>
      \o (IF call.jackind # "callable" \/ over("jac") THEN <<>>
          ELSE both("gradient", Len(call.jac) = Len(probes) /\ \A p \in DOMAIN probes : ojac(p)))
      \o (IF call.hesskind # "callable" \/ ~FitHasHess(F) \/ loc # "TrustConstr" THEN <<>>
          ELSE both("hessian", Len(call.hess) = Len(probes) /\ \A p \in DOMAIN probes : ohess(p)))
      \o (IF over("bounds") THEN <<>>
          ELSE <<Ck("C18.bounds", IF loc \in BoundedMz THEN BoundsSame(call.bounds, BoundsOf(st, ps)) ELSE call.bounds = <<>>),
                 Ck("C17.bounds", IF loc \in BoundedMz THEN BoundsSame(call.bounds, BoundsOf(st, ps)) ELSE call.bounds = <<>>)>>)
      \o (IF over("constraints") THEN <<>> ELSE cons)
      \o (IF ~glob THEN <<>>
          ELSE <<Ck("C31.options", OptFn(call.opts, call.defs) = exo),
                 Ck("C31.local", z = "BasinHopping" =>
                      /\ (IF over("method") THEN TRUE ELSE call.method = Method(loc))
                      /\ (IF over("jac") THEN TRUE ELSE call.jackind = jk)
                      /\ Fn(call.mkopts) = Fn(SelectSeq(mkg, LAMBDA x : x[1] \notin {"method", "jac", "bounds", "constraints"}))),
                 Ck("C31.bounds", over("bounds") \/ (IF loc \in BoundedMz THEN BoundsSame(call.bounds, BoundsOf(st, ps)) ELSE call.bounds = <<>>)),
                 Ck("C31.constraints", over("constraints") \/ IF loc \in ConMz THEN \A k \in DOMAIN cons : cons[k][2] # "bad"
                                        ELSE call.cons = <<>>)>>)
      \o (IF F.chain THEN <<Ck("C23.options", OptFn(call.opts, call.defs) = exo)>> ELSE <<>>)

---------------------------------------------------------------------------
(* Results *)
\* rows of the Gauss-Newton matrix
GNLs(o, pv, n) ==
  LET ev == EvObj(o, pv, 1)
      P == Present(o)
      one(v) == LET r == Resid(o, ev, v)  s == o.data[Sg(v)]
                IN  [k \in DOMAIN r |-> MScale(RInv(RSqr(s.d[k])), Outer(r[k].g, r[k].g))]
  IN  FoldLeft(LAMBDA a, x : TLCEval(MAdd(a, x)), ZeroMat(n, n), Flat(MapSeq(P, one)))
GNLl(o, pv, n) ==
  LET ev == EvObj(o, pv, 1)
      one(v) == [k \in DOMAIN ev[v].j |-> MScale(RInv(RSqr(ev[v].j[k].v)), Outer(ev[v].j[k].g, ev[v].j[k].g))]
  IN  FoldLeft(LAMBDA a, x : TLCEval(MAdd(a, x)), ZeroMat(n, n), Flat(MapSeq(o.m.dep, one)))
\* curvature of the objective: <<>> when not available
Curv(o, pv) ==
  LET n == Len(o.m.ps)
  IN  CASE o.cls \in {"LeastSquares", "LogLikelihood"} /\ HasHess(o.m) -> ObjJets(o, pv, 2)[1].h
        [] o.cls = "MinimizeModel" -> IF HasHess(o.m) THEN ObjJets(o, pv, 2)[1].h ELSE <<>>
        [] ~HasJac(o.m) -> <<>>
        [] o.cls = "LogLikelihood" -> GNLl(o, pv, n)
        [] OTHER -> GNLs(o, pv, n)
NData(o) == FoldLeft(LAMBDA a, v : a + Len(o.data[v].d), 0, Present(o))
LSValue(o, pv) == ObjJets([o EXCEPT !.cls = "LeastSquares"], pv, 0)[1].v
\* components of the same shape: their number of points is counted only once by
\* the implementation (see known_findings.json)
DistinctN(o) == LET shs == {o.data[v].sh : v \in SeqSet(Present(o))}
                IN  FoldLeft(LAMBDA a, s : a + Prod(s), 0, SetToSeq(shs))

CovClauses(F, x, o) ==
  LET ob == F.o
      n == Len(ob.m.ps)
      fr == F.freeidx
      H == TLCEval(Curv(ob, x))
      B == IF H = <<>> THEN <<>> ELSE SubMat(H, fr, fr)
      inv == IF B = <<>> THEN <<>> ELSE TLCEval(MatInv(B))
      cond == IF inv = <<>> THEN "nan" ELSE RMul(MatNorm(B), MatNorm(inv))
      ls == ob.cls = "LeastSquares"
      vls == ob.cls = "VectorLeastSquares"
      dof == NData(ob) - Len(fr)
      dof2 == DistinctN(ob) - Len(fr)
      rss == RMul("2", LSValue(ob, x))
      scaled == (ls \/ vls) /\ ~F.absig
      s2 == IF scaled THEN RDiv(rss, RInt(dof)) ELSE "1"
      s2b == IF scaled THEN RDiv(rss, RInt(dof2)) ELSE "1"
      full(s) == [i \in 1..n |-> [j \in 1..n |->
                   IF i \in SeqSet(fr) /\ j \in SeqSet(fr)
                   THEN RMul(s, inv[IndexOf(fr, i)][IndexOf(fr, j)]) ELSE "0"]]
      tol(s) == RMul(RMul("1/1000000000", cond), RMax("1/1000000", RMul(s, MatNorm(inv))))
      \* finite differences: error of the curvature from an error of 1/10^6 in
      \* the derivatives, weighted with 1 / sigma
      sw == RSum(Flat(MapSeq(Present(ob), LAMBDA v : MapSeq(ob.data[Sg(v)].d, LAMBDA z : RInv(RSqr(z))))))
      fd == IF ob.m.kind \notin {"GradientNumericalModel", "ODE"} THEN "0"
            ELSE IF ls \/ vls THEN RMul(RMax("2/1000000", IF ob.m.kind = "ODE" THEN "1/10000" ELSE "0"), RMul(MatNorm(inv), RSqrt(RMul(MatNorm(B), sw))))
            ELSE RMul("1/10000", cond)
      close(s) == /\ Len(o.cov) = n
                  /\ \A i \in 1..n : Len(o.cov[i]) = n /\ \A j \in 1..n :
                       LET t == RAdd(RMul(fd, RMul(s, MatNorm(inv))),
                                     RMul(RMax("1", RMul(JTol(ob.m), "100000000")), tol(s)))
                       IN  RNum(o.cov[i][j]) /\ RLe(RAbs(RSub(o.cov[i][j], full(s)[i][j])), t)
  IN  IF F.direct THEN <<Ck("C24.none", ~o.hascov)>>
      ELSE IF ~ObjOk(ob, x, "hess") /\ ob.cls = "LogLikelihood" THEN <<Sk("C24.covariance")>>
      ELSE IF ob.cls = "MinimizeModel" /\ Len(ObjJets(ob, x, 0)) # 1 THEN <<Sk("C24.covariance")>>
      ELSE IF H = <<>> THEN <<Ck("C24.none", ~o.hascov)>>
      ELSE IF fr = <<>> \/ inv = <<>> THEN <<Sk("C24.covariance")>>
      ELSE IF RLt(F.maxcond, cond) \/ RLt(IF ob.m.kind = "ODE" THEN "1/5" ELSE "1/100", fd) THEN <<Sk("C24.covariance")>>
      ELSE IF scaled /\ (dof <= 0 \/ dof2 <= 0) THEN <<Sk("C24.dof")>>
      ELSE <<Ck("C24.covariance", o.hascov /\ (close(s2) \/ close(s2b))),
             CkIf(scaled /\ dof # dof2, "C24.multidof", o.hascov /\ close(s2)),
             Ck("C17.variance", \A i \in 1..n : i \in SeqSet(fr) \/
                 \A j \in 1..n : o.hascov => o.cov[i][j] = "0" /\ o.cov[j][i] = "0")>>

GofClauses(F, x, o) ==
  LET ob == F.o
      g == Fn(o.gof)
      lsq == ob.cls \in {"LeastSquares", "VectorLeastSquares"}
      ll == ob.cls = "LogLikelihood"
      V == ObjVals(ob, x)
      keys == {"objective_value"} \cup (IF lsq THEN {"r_squared", "chi_squared"} ELSE {})
               \cup (IF ll THEN {"log_likelihood", "likelihood"} ELSE {})
      all4 == {"r_squared", "chi_squared", "log_likelihood", "likelihood"}
      ev == EvObj(ob, x, 0)
      P == Present(ob)
      sse == RSum(Flat(MapSeq(P, LAMBDA v : MapSeq(Resid(ob, ev, v), LAMBDA r : RSqr(r.v)))))
      mean(v) == RDiv(RSum(ob.data[v].d), RInt(Len(ob.data[v].d)))
      sst == RSum(Flat(MapSeq(P, LAMBDA v : MapSeq(ob.data[v].d, LAMBDA y : RSqr(RSub(y, mean(v)))))))
      T == VTol(ob.m)
  IN  IF ~ObjOk(ob, x, "val") THEN <<Sk("C25.gof")>>
      ELSE <<Ck("C25.keys", DOMAIN g = keys /\ SeqSet(o.nogof) = all4 \ keys),
             Ck("C25.attributes", o.gofattr = o.gof),
             Ck("C25.objective", "objective_value" \in DOMAIN g /\ CloseSeq(g["objective_value"].d, V, T, ObjScale(ob.m)))>>
           \o (IF ~lsq \/ ~({"chi_squared", "r_squared"} \subseteq DOMAIN g) THEN <<>>
               ELSE <<Ck("C25.chisquared", CloseSeq(g["chi_squared"].d, <<RMul("2", LSValue(ob, x))>>, T, ObjScale(ob.m))),
                      IF ~RLt("1/1000", sst) THEN Sk("C25.rsquared")
                      ELSE Ck("C25.rsquared", CloseSeq(g["r_squared"].d, <<RSub("1", RDiv(sse, sst))>>, RMul("100", T), RDiv("1", RMin("1", sst))))>>)
           \o (IF ~ll \/ ~({"log_likelihood", "likelihood"} \subseteq DOMAIN g) THEN <<>>
               ELSE <<Ck("C25.loglikelihood", CloseSeq(g["log_likelihood"].d, <<RNeg(V[1])>>, T, ObjScale(ob.m))),
                      IF RLt("10", RAbs(V[1])) THEN Sk("C25.likelihood")
                      ELSE Ck("C25.likelihood", CloseT(g["likelihood"].d[1], RExp(RNeg(V[1])), "1/10000000", "1"))>>)

LookupClauses(F, x, o) ==
  LET n == Len(o.params)
      okc(i, j) == IF ~o.hascov THEN o.covget[i][j] = "none" ELSE o.covget[i][j] = o.cov[i][j]
      v(i) == IF ~o.hascov THEN o.variance[i] = "none" ELSE o.variance[i] = o.cov[i][i]
      sd(i) == IF ~o.hascov THEN o.stdev[i] = "none"
               ELSE IF ~RNum(o.cov[i][i]) \/ RLt(o.cov[i][i], "0") THEN ~RNum(o.stdev[i])
               ELSE RNum(o.stdev[i]) /\ RLe("0", o.stdev[i])
                    /\ RLe(RAbs(RSub(RSqr(o.stdev[i]), o.cov[i][i])), RMul("1/1000000000000", o.cov[i][i]))
  IN  <<Ck("C25.value", o.value = Vals(o.params)),
        Ck("C25.variance", Len(o.variance) = n /\ \A i \in 1..n : v(i)),
        Ck("C25.stdev", Len(o.stdev) = n /\ \A i \in 1..n : sd(i)),
        Ck("C25.covariance", \A i \in 1..n : \A j \in 1..n : okc(i, j))>>

\* x: parameter values of the result
ResClauses(F, x, o) ==
  LET ps == F.o.m.ps
      ok == Keys(o.params) = ps /\ \A i \in DOMAIN ps : CloseT(o.params[i][2], x[ps[i]], "1/1000000000000", "1")
  IN  <<Ck("C17.result", ok), Ck("C25.params", ok), Ck("C22.result", ok), Ck("C23.result", ok), Ck("C31.result", ok)>>
      \o LookupClauses(F, x, o) \o GofClauses(F, x, o) \o CovClauses(F, x, o)

---------------------------------------------------------------------------
(* Optimum of a quadratic objective under bounds and linear constraints:     *)
(* enumeration of active sets and their KKT systems.                        *)
\* H, g: half x'Hx + g'x ; rows: sequence of [a, b, eq] meaning a.x - b (>)= 0
BndRows(st, fr) ==
  LET k == Len(fr)
      bnd(i) == LET p == st.P[fr[i]]
                IN  (IF p.min = "none" THEN <<>> ELSE <<[a |-> Unit(k, i), b |-> p.min, eq |-> FALSE]>>)
                    \o (IF p.max = "none" THEN <<>>
                        ELSE <<[a |-> VScale("-1", Unit(k, i)), b |-> RNeg(p.max), eq |-> FALSE]>>)
  IN  Flat([i \in 1..k |-> bnd(i)])
ConRows(st, F, fr) ==
  LET k == Len(fr)
      fi == FreeIdx(st, F.m.ps)
      con(c) == LET z == ConJets(F, c, At(st, F.m.ps, Zeros(k)), 1)
                IN  MapSeq(z, LAMBDA t : [a |-> SubVec(t.g, fi), b |-> RNeg(t.v), eq |-> c.ctype = "Equality"])
  IN  Flat(MapSeq(F.cons, con))
Kkt(H, g, rows, A) ==      \* A: sequence of active row numbers
  LET k == Len(g)  q == Len(A)
      M == [i \in 1..(k + q) |-> [j \in 1..(k + q) |->
             IF i <= k /\ j <= k THEN H[i][j]
             ELSE IF i <= k THEN RNeg(rows[A[j - k]].a[i])
             ELSE IF j <= k THEN rows[A[i - k]].a[j] ELSE "0"]]
      rhs == [i \in 1..(k + q) |-> IF i <= k THEN RNeg(g[i]) ELSE rows[A[i - k]].b]
  IN  Solve(M, rhs)
KktOk(H, g, rows, A) ==
  LET k == Len(g)  s == TLCEval(Kkt(H, g, rows, A))
  IN  IF s = <<>> THEN <<>>
      ELSE LET x == SubSeq(s, 1, k)
               feas == \A i \in DOMAIN rows : i \in SeqSet(A) \/ (~rows[i].eq /\ RLe(rows[i].b, Dot(rows[i].a, x)))
               dual == \A j \in DOMAIN A : rows[A[j]].eq \/ RLe("0", s[k + j])
           IN  IF feas /\ dual THEN x ELSE <<>>
QpOpt(H, g, rows) ==
  LET eqs == {i \in DOMAIN rows : rows[i].eq}
      cand == {SetToSortSeq(S \cup eqs, <) : S \in {T \in SUBSET (DOMAIN rows \ eqs) : Cardinality(T) + Cardinality(eqs) <= Len(g)}}
      good == {A \in cand : KktOk(H, g, rows, A) # <<>>}
  IN  IF good = {} THEN <<>> ELSE KktOk(H, g, rows, CHOOSE A \in good : TRUE)

OptTol(z) == CASE z \in {"NelderMead", "Powell", "DifferentialEvolution"} -> "1/1000"
               [] z \in {"COBYLA", "MINPACK"} -> "1/1000"
               [] z = "TrustConstr" -> "1/30"
               [] OTHER -> "1/20000"
\* exact optimum of a fit that is linear in its parameters
LinClauses(st, F, o, start) ==
  LET ps == F.m.ps  fr == FreeOf(st, ps)  fi == FreeIdx(st, ps)
      q == [F.o EXCEPT !.cls = "LeastSquares"]
      z0 == At(st, ps, Zeros(Len(fr)))
      J == TLCEval(ObjJets(q, z0, 2)[1])
      H == SubMat(J.h, fi, fi)  g == SubVec(J.g, fi)
      last == F.mz[Len(F.mz)]
      loc == IF last = "BasinHopping" THEN F.auto ELSE last
      rows == (IF loc \in BoundedMz THEN BndRows(st, fr) ELSE <<>>)
              \o (IF loc \in ConMz THEN ConRows(st, F, fr) ELSE <<>>)
      xs == TLCEval(QpOpt(H, g, rows))
      pf == Fn(o.params)
      x == MapSeq(fr, LAMBDA p : pf[p])
      t == IF F.m.kind = "GradientNumericalModel" THEN RMax("1/100", OptTol(last)) ELSE OptTol(last)
      lo(i) == st.P[fr[i]].min = "none" \/ RLe(RSub(st.P[fr[i]].min, "1/1000000"), x[i])
      hi(i) == st.P[fr[i]].max = "none" \/ RLe(x[i], RAdd(st.P[fr[i]].max, "1/1000000"))
      close0 == xs # <<>> /\ \A i \in DOMAIN x : CloseT(x[i], xs[i], t, "1")
      \* scipy's L-BFGS-B may give up early at a bound: then a clear descent is asked
      val(v) == ObjJets(q, [p \in SeqSet(ps) |-> IF p \in SeqSet(fr) THEN v[IndexOf(fr, p)] ELSE z0[p]], 0)[1].v
      best == val(xs)
      close == close0 \/ (loc = "LBFGSB" /\ xs # <<>> /\ F.cons = <<>> /\
                 RLe(RSub(val(x), best), RDiv(RSub(val(MapSeq(fr, LAMBDA p : start[p])), best), "4")))
  IN  IF ~PosDef(H) \/ xs = <<>> THEN <<Sk("C20.optimum")>>
      ELSE <<Ck("C20.optimum", close), Ck("C17.optimum", close)>>
           \o (IF F.cons = <<>> THEN <<>> ELSE <<Ck("C19.optimum", close)>>)
           \o (IF loc \notin BoundedMz THEN <<>>
               ELSE <<Ck("C18.respected", \A i \in DOMAIN x : lo(i) /\ hi(i)), Ck("C18.optimum", close)>>)
\* stationarity and descent for a smooth unconstrained problem; start: parameter
\* values at the start of the run
StatClauses(st, F, o, start) ==
  LET ps == F.o.m.ps  fi == FreeIdx(st, ps)  fr == FreeOf(st, ps)
      pf == Fn(o.params)
      q == IF F.o.cls = "VectorLeastSquares" THEN [F.o EXCEPT !.cls = "LeastSquares"] ELSE F.o
      x == [p \in SeqSet(ps) |-> pf[p]]
      J == TLCEval(ObjJets(q, x, 2)[1])
      J0 == ObjJets(q, start, 0)[1]
      last == F.mz[Len(F.mz)]
      loc == IF last = "BasinHopping" THEN F.auto ELSE last
      H == SubMat(J.h, fi, fi)
      sc == RMax("1", MatNorm(H))
      t == IF F.m.kind = "ODE" THEN "1/200" ELSE OptTol(last)
      gap == IF last = "TrustConstr" THEN "1/30" ELSE "1/10000"     \* a barrier method keeps off the bounds
      atlo(i) == loc \in BoundedMz /\ st.P[fr[i]].min # "none" /\ RLe(x[fr[i]], RAdd(st.P[fr[i]].min, gap))
      athi(i) == loc \in BoundedMz /\ st.P[fr[i]].max # "none" /\ RLe(RSub(st.P[fr[i]].max, gap), x[fr[i]])
      \* rounding noise of a numerical gradient, whose step shrinks with the parameter
      noise(i) == IF F.m.kind # "GradientNumericalModel" THEN "0"
                  ELSE RDiv(RMul("1/200000000000000", RMax("1", RAbs(J.v))),
                            RMul("1/100000000", RMax("1/10000000", RAbs(x[fr[i]]))))
      gok(i) == LET d == J.g[fi[i]]
                IN  \/ RLe(RAbs(d), RAdd(RMul(t, sc), noise(i)))
                    \/ (atlo(i) /\ RLe("0", d))
                    \/ (athi(i) /\ RLe(d, "0"))
      inb(i) == /\ st.P[fr[i]].min = "none" \/ RLe(RSub(st.P[fr[i]].min, "1/1000000"), x[fr[i]])
                /\ st.P[fr[i]].max = "none" \/ RLe(x[fr[i]], RAdd(st.P[fr[i]].max, "1/1000000"))
  IN  IF ~ObjOk(q, x, "val") THEN <<Sk("C20.stationary")>>
      ELSE <<Ck("C20.stationary", \A i \in DOMAIN fr : gok(i)),
             Ck("C20.descent", RLe(J.v, RAdd(J0.v, RMul(IF last = "TrustConstr" THEN "1/100" ELSE "1/1000000", RMax("1", RAbs(J0.v))))))>>
           \o (IF loc \in BoundedMz THEN <<Ck("C18.respected", \A i \in DOMAIN fr : inb(i))>> ELSE <<>>)

---------------------------------------------------------------------------
(* Executing a fit *)
LastAns(calls) == calls[Len(calls)]
OpExec(st, e) ==
  LET F0 == st.O[e.f]
      F == TLCEval([k \in DOMAIN F0 \cup {"freeidx", "maxcond"} |->
             IF k = "freeidx" THEN FreeIdx(st, F0.o.m.ps) ELSE IF k = "maxcond" THEN "1000000" ELSE F0[k]])
      ps == F.o.m.ps
      okeys == e.optkeys
      badkeys == F.chain /\ \E i \in DOMAIN okeys : okeys[i] \notin {ChainName(F.mz, j) : j \in DOMAIN F.mz}
  IN  IF badkeys THEN Res(st, Tagged(<<Ck("C23.refuse", Failed(e))>>, F.tags))
      \* a real optimiser may reach parameters without a solution
      ELSE IF e.obs.err = "ODEError" /\ F.o.m.kind = "ODE" /\ e.script = <<>> THEN Res(st, <<Sk("C20.raised")>>)
      ELSE IF Failed(e) THEN Res(st, Tagged(<<Ck("C17.raised", FALSE), Ck("C20.raised", FALSE), Ck("C22.raised", FALSE),
                                              Ck("C24.raised", FALSE), Ck("C25.raised", FALSE), Ck("C18.raised", FALSE),
                                              Ck(Cls2Prop(F.o.cls) \o ".raised", FALSE)>>
                                            \o (IF F.cons # <<>> THEN <<Ck("C19.raised", FALSE)>> ELSE <<>>)
                                            \o (IF F.chain THEN <<Ck("C23.raised", FALSE)>> ELSE <<>>)
                                            \o (IF \E i \in DOMAIN F.mz : F.mz[i] \in {"BasinHopping", "DifferentialEvolution"}
                                                THEN <<Ck("C31.raised", FALSE)>> ELSE <<>>), F.tags))
      ELSE
      LET o == e.obs  calls == o.calls  n == Len(F.mz)
          probes == e.probes
          cur == FreeVals(st, ps)
          x0(i) == IF i = 1 THEN cur ELSE calls[i - 1].ans
          gv(i) == IF F.chain THEN Under(o.given, ChainName(F.mz, i) \o ".") ELSE o.given
          cc == IF Len(calls) # n THEN <<>>
                ELSE Flat([i \in 1..n |-> CallClauses(st, F, calls[i], F.mz[i], x0(i), gv(i), probes, i)])
          lst == LastAns(calls)
          x == IF Len(calls) = 0 THEN CurVals(st, ps) ELSE At(st, ps, lst.ans)
          nit == IF ~F.chain THEN lst.nit
                 ELSE RSum(SelectSeq([i \in 1..n |-> calls[i].nit], LAMBDA t : t # "none"))
          hist == [P |-> Pick(st.P, SeqSet(ps)), opts |-> o.given, seed |-> e.seed, params |-> o.res.params]
          old == {i \in DOMAIN F.hist : F.hist[i].P = hist.P /\ F.hist[i].opts = hist.opts /\ F.hist[i].seed = hist.seed}
          fin == Len(calls) = n
          v == <<Ck("C23.order", Len(calls) = n), Ck("C21.calls", Len(calls) = n), Ck("C31.calls", Len(calls) = n),
                 Ck("C22.params", SnapOk(st, o.snap)), Ck("C17.params", SnapOk(st, o.snap)),
                 Ck("C22.callersoptions", o.optsame), Ck("C31.callersoptions", o.optsame),
                 Ck("C22.callersdata", o.userok), Ck("C12.callersdata", o.userok)>>
               \o cc
               \o (IF ~fin THEN <<>> ELSE
                   ResClauses(F, x, o.res)
                   \o <<Ck("C25.status", o.res.status = lst.message),
                        Ck("C25.iterations", o.res.nit = nit), Ck("C23.iterations", F.chain => o.res.nit = nit),
                        Ck("C25.minimizer", o.res.minimizer = IF F.chain THEN "ChainedMinimizer" ELSE F.mz[1]),
                        Ck("C25.objectivekind", o.res.objective = F.o.cls),
                        Ck("C25.constraints", LET z == F.mz[n]  l == IF z = "BasinHopping" THEN F.auto ELSE z
                              IN o.res.ncons = IF l \in ConMz THEN Len(F.cons) ELSE 0)>>
                   \o (IF e.script # <<>> THEN <<>>
                       ELSE <<CkIf(old # {}, "C22.repeat", \A i \in old : F.hist[i].params = hist.params)>>)
                   \* an optimiser which ran out of evaluations promises nothing
                   \o (CASE \E i \in DOMAIN o.calls : Get(o.calls[i], "ranout", FALSE) -> <<Sk("C20.ranout")>>
                         [] e.expect = "linear" -> LinClauses(st, F, o.res, CurVals(st, ps))
                         [] e.expect = "stationary" -> StatClauses(st, F, o.res, CurVals(st, ps))
                         [] OTHER -> <<>>))
          st2 == IF e.script # <<>> THEN st ELSE [st EXCEPT !.O[e.f].hist = Append(@, hist)]
      IN  Res(SetObj(st2, e.id, [t |-> "res", F |-> F, x |-> x, res |-> o.res]), Tagged(v, F.tags))

\* a stored result is looked at again
OpRes(st, e) ==
  LET R == st.O[e.r]
  IN  IF Failed(e) THEN Res(st, <<Ck("C22.stored", FALSE)>>)
      ELSE LET a == e.obs.res  b == R.res
           IN  Res(st, Tagged(<<Ck("C22.stored", /\ a.params = b.params /\ a.value = b.value /\ a.hascov = b.hascov
                                   /\ a.cov = b.cov /\ a.gof = b.gof /\ a.status = b.status /\ a.nit = b.nit
                                   /\ a.stdev = b.stdev /\ a.variance = b.variance /\ a.covget = b.covget
                                   /\ a.objective = b.objective /\ a.minimizer = b.minimizer /\ a.ncons = b.ncons)>>,
                              R.F.tags))
=============================================================================
