----------------------------- MODULE TraceModel -----------------------------
(* Events on parameters, symbolic models and constraints:                  *)
(* C01-C07, C28, C29.                                                       *)
EXTENDS TraceBase, Poly

EvalM(m, args, ps, L) == CASE m.kind = "ODE" -> EvalOde(m, args, ps, L)
                           [] m.kind = "Matrix" -> EvalMatrix(m.defs, args, ps, L)
                           [] OTHER -> EvalModel(m.defs, args, ps, L)
KindName(m) == CASE m.kind = "ODE" -> "ODEModel" [] m.kind = "Matrix" -> "CallableModel" [] OTHER -> m.kind
\* tolerance of values of a model
VTol(m) == IF m.kind = "ODE" THEN m.vtol ELSE RT
InterOf(m) == IF m.kind = "ODE" THEN <<>> ELSE Inter(m.defs)

---------------------------------------------------------------------------
(* Parameters (C28) *)
NewAttr(e) == [value |-> Get(e, "value", "1"), min |-> Get(e, "min", "none"),
               max |-> Get(e, "max", "none"), fixed |-> Get(e, "fixed", "false")]
Norm(a) == [value |-> IF a.value = "default" THEN "1" ELSE a.value,
            min |-> IF a.min = "default" THEN "none" ELSE a.min,
            max |-> IF a.max = "default" THEN "none" ELSE a.max,
            fixed |-> a.fixed]
BadBounds(a) == a.min # "none" /\ a.max # "none" /\ RLt(a.max, a.min)
Refused(a) == BadBounds(a) /\ a.fixed = "false"
\* an observed attribute record against the specified one; for a fixed
\* parameter with contradicting bounds the bounds are not specified
SameAttr(o, a) == /\ o.value = a.value /\ o.fixed = a.fixed
                  /\ BadBounds(a) \/ (o.min = a.min /\ o.max = a.max)
SnapOk(st, snap) ==
  LET f == Fn(snap) IN \A n \in DOMAIN st.P : n \in DOMAIN f /\ SameAttr(f[n], st.P[n])

OpParam(st, e) ==
  LET a == Norm(NewAttr(e))
  IN  IF Refused(a) THEN Res(st, <<Ck("C28.refuse", Failed(e)), Ck("C18.refuse", Failed(e))>>)
      ELSE IF Failed(e) THEN Res(st, <<Ck("C28.make", FALSE)>>)
      ELSE Res([st EXCEPT !.P = With(@, e.n, a)],
               <<Ck("C28.attr", SameAttr(e.obs.attr, a)), Ck("C28.name", e.obs.attr.name = e.n)>>)
OpVar(st, e) == Res([st EXCEPT !.V = @ \cup {e.n}], <<Ck("C28.var", ~Failed(e) /\ e.obs.name = e.n)>>)
OpSetp(st, e) ==
  LET a == [st.P[e.n] EXCEPT ![e.a] = e.v]
  IN  Res([st EXCEPT !.P[e.n] = a], <<Ck("C28.set", ~Failed(e) /\ SameAttr(e.obs.attr, a))>>)
OpGetp(st, e) == Res(st, <<Ck("C28.attr", ~Failed(e) /\ SameAttr(e.obs.attr, st.P[e.n]))>>)
OpPsnap(st, e) == Res(st, <<Ck("C28.attr", ~Failed(e) /\ SnapOk(st, e.obs.snap))>>)

---------------------------------------------------------------------------
(* Models *)
Mk(kind, defs, ps, st) ==
  [t |-> "model", kind |-> kind, defs |-> defs, ps |-> ps,
   ind |-> Indep(defs, ParNames(st)), dep |-> Dep(defs), names |-> Listed(defs)]
ArgOrder(m) == m.ind \o m.ps

RoleClauses(st, m, o) ==
  <<Ck("C01.independent", o.indep = m.ind),
    Ck("C01.dependent", o.dep = m.dep),
    Ck("C01.interdependent", o.inter = InterOf(m)),
    Ck("C01.params", o.params = m.ps /\ o.ispar),
    Ck("C01.signature", o.sig = ArgOrder(m)),
    Ck("C01.sigmas", o.sigmas = [i \in DOMAIN m.dep |-> <<m.dep[i], "sigma_" \o m.dep[i]>>]),
    Ck("C01.vars", o.vars = m.ind \o m.dep \o [i \in DOMAIN m.dep |-> "sigma_" \o m.dep[i]]),
    Ck("C01.components", o.iter = m.names /\ o.len = Len(m.names)),
    Ck("C17.free", o.free = FreeOf(st, m.ps)),
    Ck("C18.modelbounds", /\ Len(o.bounds) = Len(m.ps)
                          /\ \A i \in DOMAIN m.ps : st.P[m.ps[i]].fixed = "true" \/
                               o.bounds[i] = <<st.P[m.ps[i]].min, st.P[m.ps[i]].max>>)>>

\* list and expression forms: names are generated, given by the implementation
AutoDefs(e) == IF Get(e, "form", "dict") = "dict" \/ Failed(e) THEN e.defs
               ELSE IF Len(e.obs.iter) # Len(e.defs) THEN e.defs
               ELSE [i \in DOMAIN e.defs |-> [e.defs[i] EXCEPT !.n = e.obs.iter[i]]]
(* Differential equations (C09): initial is a list of pairs, the one of the  *)
(* independent variable is t0.                                              *)
MkOde(st, e) ==
  LET dep == Listed(e.defs)
      ini == Fn(e.initial)
      one(c) == IF Has(c, "p") THEN [k |-> "p", x |-> c.p] ELSE [k |-> "v", x |-> c.v]
      init == [v \in SeqSet(dep) |-> one(ini[v])]
      pars == (UsedSyms(e.defs) \cup {init[v].x : v \in {u \in SeqSet(dep) : init[u].k = "p"}}) \cap ParNames(st)
  IN  [t |-> "model", kind |-> "ODE", defs |-> e.defs, ps |-> SortNames(pars), ind |-> <<e.t>>, dep |-> dep,
       names |-> dep, tv |-> e.t, t0 |-> ini[e.t].v, init |-> init, opts |-> e.opts, vtol |-> e.vtol, cid |-> "C08"]
OdeClauses(st, m, o) ==
  LET v == RoleClauses(st, m, o)
  IN  v \o <<Ck("C09.params", o.params = m.ps /\ o.ispar),
             Ck("C09.roles", \A i \in DOMAIN v : v[i][2] # "bad"),
             Ck("C09.kind", o.kind = "ODEModel")>>
OpOde(st, e) ==
  IF Failed(e) THEN Res(st, <<Ck("C09.accept", FALSE), Ck("C08.accept", FALSE)>>)
  ELSE LET m == MkOde(st, e) IN Res(SetObj(st, e.id, m), OdeClauses(st, m, e.obs))
\* what the integrator was told: method and every setting given by the user
IvpOk(m, rec) ==
  LET f == Fn(rec)
  IN  /\ "method" \in DOMAIN f /\ f["method"] = Get(m.opts, "method", "LSODA")
      /\ \A k \in DOMAIN m.opts \ {"method"} : k \in DOMAIN f /\ RNum(f[k]) /\ CloseRel(f[k], m.opts[k], "1/1000000000000")
IvpClauses(m, o) ==
  IF m.kind # "ODE" \/ ~Has(o, "ivp") THEN <<>>
  ELSE <<Ck("C09.settings", \A i \in DOMAIN o.ivp : IvpOk(m, o.ivp[i]))>>

OpModel(st, e) ==
  IF e.kind = "ODE" THEN OpOde(st, e) ELSE
  LET auto == Get(e, "form", "dict") # "dict"
      defs == e.defs
      PN == ParNames(st)
  IN  IF ~WellFormed(defs, PN) THEN Res(st, <<Ck("C01.refuse", Failed(e))>>)
      ELSE IF Failed(e) THEN Res(st, <<Ck("C01.accept", FALSE)>>)
      ELSE LET m0 == Mk(e.kind, defs, Params(defs, PN), st)
               m == IF e.kind # "Matrix" THEN m0
                    ELSE [t |-> "model", kind |-> "Matrix", defs |-> defs, ps |-> m0.ps, ind |-> m0.ind, dep |-> m0.dep,
                          names |-> m0.names, cid |-> "C34"]
           IN  Res(SetObj(st, e.id, m),
                   <<Ck("C01.kind", e.obs.kind = KindName(m))>> \o RoleClauses(st, m, e.obs))
\* declaration of a matrix symbol
OpMsym(st, e) == Res(st, <<Ck("C34.symbol", ~Failed(e) /\ e.obs.name = e.n)>>)
OpMobs(st, e) ==
  LET m == st.O[e.m]
  IN  IF Failed(e) THEN Res(st, <<Ck("C01.observe", FALSE)>>)
      ELSE IF m.kind = "ODE" THEN Res(st, OdeClauses(st, m, e.obs))
      ELSE Res(st, <<Ck("C01.kind", e.obs.kind = KindName(m))>> \o RoleClauses(st, m, e.obs))

DataArr(d) == [sh |-> d.sh, d |-> d.d]
CallEnv(m, e) == LET b == Bound(ArgOrder(m), e.pos, e.kw) IN [n \in DOMAIN b |-> DataArr(b[n])]

ValScale(m) == IF m.kind = "ODE" THEN "1" ELSE "100"
\* at the initial time an ODE model returns the initial condition
AtStart(m, env, v, a) ==
  LET c == m.init[v]
      y0 == IF c.k = "p" THEN env[c.x].d[1] ELSE c.x
      T == env[m.tv].d
  IN  /\ Len(a.d) = Len(T)
      /\ \A k \in DOMAIN T : T[k] # m.t0 \/ CloseT(a.d[k], y0, "1/1000000", "1")
OpCall(st, e) ==
  LET m == st.O[e.m]
      C == IF Get(e, "neg", FALSE) THEN "C06" ELSE IF Has(m, "cid") THEN m.cid ELSE "C02"
  IN  IF ~BindOk(ArgOrder(m), e.pos, e.kw) THEN Res(st, <<Ck("C02.refuse", Failed(e))>>)
      ELSE IF Failed(e) THEN Res(st, <<Ck(C \o ".raised", FALSE)>>)
      ELSE LET o == e.obs
               ev == EvalM(m, CallEnv(m, e), <<>>, 0)
               good(n, a) == a.sh = AtLeast1(ev[n].sh) /\ CloseSeq(a.d, ValArr(ev[n]).d, VTol(m), ValScale(m))
               same(s) == s = Vals(o.asdict)
           IN  Res(st, <<Ck(C \o ".names", Keys(o.asdict) = m.names /\ o.names = m.names),
                         Ck(C \o ".value", Keys(o.asdict) = m.names =>
                              \A i \in DOMAIN m.names : good(m.names[i], o.asdict[i][2])),
                         CkIf(m.kind = "ODE", "C09.value", Keys(o.asdict) = m.names =>
                              \A i \in DOMAIN m.names : good(m.names[i], o.asdict[i][2])),
                         CkIf(m.kind = "ODE", "C09.initial", Keys(o.asdict) = m.names =>
                              \A i \in DOMAIN m.names : AtStart(m, CallEnv(m, e), m.names[i], o.asdict[i][2])),
                         Ck("C02.position", same(o.idx)), Ck("C02.iterate", same(o.iter)),
                         Ck("C02.attribute", same(o.attr)), Ck("C02.byvariable", same(o.byvar)),
                         CkIf(Has(o, "pick"), "C02.pickled", o.pick = o.asdict /\ o.pickidx = o.idx),
                         CkIf(Has(o, "pick"), "C26.output", o.pick = o.asdict /\ o.pickidx = o.idx),
                         Ck("C22.inputs", \A i \in DOMAIN o.unch : o.unch[i])>>)

JacArr(a, n) == [i \in 1..n |-> [k \in DOMAIN a.j |-> a.j[k].g[i]]]
HessArr(a, n) == [i \in 1..n |-> Flat([j \in 1..n |-> [k \in DOMAIN a.j |-> a.j[k].h[i][j]]])]
JacTol(m) == CASE m.kind = "ODE" -> "1/500"
               [] m.kind = "GradientNumericalModel" -> "1/100000"
               [] OTHER -> RT
OpJac(st, e) ==
  LET m == st.O[e.m]  n == Len(m.ps)
      C == Get(m, "cid", "C03")
  IN  IF ~BindOk(ArgOrder(m), e.pos, e.kw) THEN Res(st, <<Ck("C03.refuse", Failed(e))>>)
      ELSE IF Failed(e) THEN Res(st, <<Ck(C \o ".raised", FALSE)>>)
      ELSE LET ev == EvalM(m, CallEnv(m, e), m.ps, 1)
               good(nm, a) == /\ a.sh = <<n>> \o AtLeast1(ev[nm].sh)
                              /\ CloseSeq(a.d, Flat(JacArr(ev[nm], n)), JacTol(m), ValScale(m))
           IN  Res(st, <<Ck(C \o ".jacnames", Keys(e.obs.out) = m.names),
                         Ck(C \o ".jacobian", Keys(e.obs.out) = m.names =>
                              \A i \in DOMAIN m.names : good(m.names[i], e.obs.out[i][2])),
                         Ck(C \o ".asdict", e.obs.asdict = e.obs.out)>>)
OpHess(st, e) ==
  LET m == st.O[e.m]  n == Len(m.ps)
  IN  IF ~BindOk(ArgOrder(m), e.pos, e.kw) THEN Res(st, <<Ck("C04.refuse", Failed(e))>>)
      ELSE IF Failed(e) THEN Res(st, <<Ck("C04.raised", FALSE)>>)
      ELSE LET ev == EvalModel(m.defs, CallEnv(m, e), m.ps, 2)
               good(nm, a) == CloseOut(a, <<n, n>> \o AtLeast1(ev[nm].sh), Flat(HessArr(ev[nm], n)))
           IN  Res(st, <<Ck("C04.names", Keys(e.obs.out) = m.names),
                         Ck("C04.hessian", Keys(e.obs.out) = m.names =>
                              \A i \in DOMAIN m.names : good(m.names[i], e.obs.out[i][2]))>>)
(* Finite differences: the error of a central difference with step h is of *)
(* the order of the rounding error of the component over h, plus the        *)
(* discretisation error which the scenarios keep below a millionth.         *)
FdStep(p, dx) == IF RLt(RAbs(p), "1/10000000") THEN dx ELSE RMul(dx, RAbs(p))
FdTol(j, p, e) ==
  LET h == FdStep(p, Get(e, "dx", "1/100000000"))
  IN  RAdd(RMul("1/1000000", RMax(RInv(RMax("1", RAbs(p))), RAbs(j))),
           RDiv(RMul("1/100000000000000", Get(e, "mag", "2000")), h))
FdTolM(m, j, p, e) == IF m.kind = "ODE" THEN RMul("1/20000", RMax("1", RAbs(j))) ELSE FdTol(j, p, e)
OpFd(st, e) ==
  LET m == st.O[e.m]  n == Len(m.ps)
  IN  IF Failed(e) THEN Res(st, <<Ck("C05.raised", FALSE)>>)
      ELSE LET env == CallEnv(m, e)
               ev == EvalM(m, env, m.ps, 1)
               good(nm, a) ==
                 LET sh == AtLeast1(ev[nm].sh)  J == JacArr(ev[nm], n)  sz == Prod(sh)
                 IN  /\ a.sh = <<n>> \o sh
                     /\ \A i \in 1..n : \A k \in 1..sz :
                          LET o == a.d[(i - 1) * sz + k]
                          IN  RNum(o) /\ RLe(RAbs(RSub(o, J[i][k])), FdTolM(m, J[i][k], env[m.ps[i]].d[1], e))
           IN  Res(st, <<Ck("C05.names", Keys(e.obs.out) = m.names),
                         Ck("C05.value", Keys(e.obs.out) = m.names =>
                              \A i \in DOMAIN m.names : good(m.names[i], e.obs.out[i][2])),
                         Ck("C05.untouched", SnapOk(st, e.obs.snap))>>)
OpSymjac(st, e) ==
  LET m == st.O[e.m]  n == Len(m.ps)
      L == IF e.hess THEN 2 ELSE 1
      C == IF e.hess THEN "C04" ELSE "C03"
  IN  IF Failed(e) THEN Res(st, <<Ck(C \o ".symraised", FALSE)>>)
      ELSE LET ev == EvalModel(m.defs, ScalarArgs(Fn(e.at)), m.ps, L)
           IN  Res(st, <<Ck("C03.symbolic", /\ Keys(e.obs.out) = m.names
                              /\ \A i \in DOMAIN m.names :
                                    CloseSeq(e.obs.out[i][2].d, ev[m.names[i]].j[1].g, RT, "100")),
                         CkIf(e.hess, "C04.symbolic", /\ Keys(e.obs.hess) = m.names
                              /\ \A i \in DOMAIN m.names :
                                    CloseSeq(e.obs.hess[i][2].d, Flat(ev[m.names[i]].j[1].h), RT, "100"))>>)

OpNeg(st, e) ==
  LET m == st.O[e.m]
  IN  IF Failed(e) THEN Res(st, <<Ck("C06.raised", FALSE)>>)
      ELSE LET m2 == [m EXCEPT !.defs = IF m.kind = "ODE" THEN [i \in DOMAIN m.defs |-> [m.defs[i] EXCEPT !.e = Neg(@)]]
                                        ELSE Negated(m.defs)]
               o == e.obs
           IN  Res(SetObj(st, e.id, m2),
                   <<Ck("C06.kind", o.kind = KindName(m) /\ o.distinct),
                     Ck("C06.roles", /\ o.indep = m.ind /\ o.dep = m.dep /\ o.params = m.ps
                                     /\ o.iter = m.names /\ o.sig = ArgOrder(m)
                                     /\ o.inter = InterOf(m))>>)
(* Comparison.  "yes", "no" or "unknown": models are equal when they have    *)
(* the same dependent variables with the same expressions; components which *)
(* are callables cannot be compared beyond the identity of the callable, and *)
(* a callable is never equal to an expression.                               *)
NumKind(m) == m.kind \in {"CallableNumericalModel", "GradientNumericalModel"}
IsPy(d) == Get(d, "impl", "") = "py"
RECURSIVE Negs(_)
Negs(e) == IF e.o = "*" /\ Len(e.a) = 2 /\ e.a[1] = Num0("-1") THEN 1 + Negs(e.a[2]) ELSE 0
RECURSIVE Bare(_)
Bare(e) == IF e.o = "*" /\ Len(e.a) = 2 /\ e.a[1] = Num0("-1") THEN Bare(e.a[2]) ELSE e
SameCall(a, b) == IF Bare(a.e) # Bare(b.e) \/ a.args # b.args \/ (Negs(a.e) + Negs(b.e)) % 2 = 1
                  THEN (IF SameExpr(a.e, b.e) = "no" THEN "no" ELSE "unknown")
                  ELSE IF Negs(a.e) + Negs(b.e) > 0 \/ SeqSet(a.dep) # SeqSet(b.dep) THEN "unknown" ELSE "yes"
SameComp(a, b) == CASE IsPy(a) /\ IsPy(b) -> SameCall(a, b)
                    [] IsPy(a) # IsPy(b) -> "no"
                    [] OTHER -> IF a.e = b.e /\ DepsOf(a) = DepsOf(b) THEN "yes"
                                ELSE IF SameExpr(a.e, b.e) = "no" THEN "no" ELSE "unknown"
AllSame(r) == IF "no" \in r THEN "no" ELSE IF "unknown" \in r THEN "unknown" ELSE "yes"
SameM(m, k) ==
  IF DefNames(m.defs) # DefNames(k.defs) THEN "no"
  ELSE IF "Matrix" \in {m.kind, k.kind} THEN (IF m.kind = k.kind /\ m.defs = k.defs THEN "yes" ELSE "unknown")
  ELSE IF NumKind(m) \/ NumKind(k) THEN AllSame({SameComp(TheDef(m.defs, n), TheDef(k.defs, n)) : n \in DefNames(m.defs)})
  ELSE LET r == SameModel(m.defs, k.defs)
       IN  IF r = "yes" /\ (m.kind = "ODE") # (k.kind = "ODE") THEN "unknown"
           ELSE IF r = "yes" /\ m.kind = "ODE" /\ <<m.t0, m.tv, m.init>> # <<k.t0, k.tv, k.init>> THEN "unknown"
           ELSE r
\* what a comparison returns, in both directions, with == and with !=
EqOk(o, r) == o.eq = (r = "yes") /\ o.rev = (r = "yes") /\ o.ne = (r # "yes")
OpMeq(st, e) ==
  IF Get(e, "sym", FALSE)      \* with something which is not a model
  THEN Res(st, <<Ck("C06.other", ~Failed(e) /\ EqOk(e.obs, "no"))>>)
  ELSE LET m == st.O[e.x]  k == st.O[e.y]  r == SameM(m, k)
           C == IF NumKind(m) \/ NumKind(k) THEN "C35" ELSE "C06"
       IN  Res(st, IF r = "unknown" THEN <<Sk(C \o ".equal"), Ck(C \o ".compares", ~Failed(e))>>
                   ELSE <<Ck(C \o ".equal", ~Failed(e) /\ EqOk(e.obs, r))>>)

---------------------------------------------------------------------------
(* Constraints (C07) *)
ConExpr(c) == IF c.rel = "le" THEN Neg(Minus(c.lhs, c.rhs)) ELSE Minus(c.lhs, c.rhs)
\* components of the constraint model: the constraint itself and what it needs
ConDefs(m, c, name) ==
  LET need == Closure(m.defs, Syms(c.lhs) \cup Syms(c.rhs)) \cap DefNames(m.defs)
  IN  SelectSeq(m.defs, LAMBDA d : d.n \in need) \o <<[n |-> name, e |-> ConExpr(c)]>>
ConOk(st, m, c) ==
  /\ c.rel \in {"eq", "ge", "le"}
  /\ SeqSet(Params(ConDefs(m, c, "$con"), ParNames(st))) \subseteq SeqSet(m.ps)
ConKind(m) == IF m.kind \in {"CallableNumericalModel", "GradientNumericalModel"} THEN "CallableModel" ELSE m.kind
ConModel(st, m, c, name) ==
  LET defs == ConDefs(m, c, name)
  IN  [t |-> "con", kind |-> ConKind(m), defs |-> defs, ps |-> m.ps, con |-> name,
       ind |-> Indep(defs, ParNames(st)), dep |-> <<name>>, names |-> Listed(defs),
       ctype |-> IF c.rel = "eq" THEN "Equality" ELSE "GreaterThan"]
OpCon(st, e) ==
  LET m == st.O[e.m]
  IN  IF Get(e, "form", "rel") = "two" \/ ~ConOk(st, m, e) THEN Res(st, <<Ck("C07.refuse", Failed(e))>>)
      ELSE IF Failed(e) THEN Res(st, <<Ck("C07.accept", FALSE)>>)
      ELSE LET o == e.obs
               new == SeqSet(o.comps) \ DefNames(ConDefs(m, e, "$con"))
           IN  IF Len(o.con) # 1 THEN Res(st, <<Ck("C07.scalar", FALSE)>>)
               ELSE LET name == o.con[1]
                        k == ConModel(st, m, e, name)
                    IN  Res(SetObj(st, e.id, k),
                         <<Ck("C07.name", Get(e, "form", "rel") = "dict" => name = e.cn),
                           Ck("C07.fresh", name \notin DefNames(m.defs) \cup SeqSet(m.ind) \cup ParNames(st)),
                           Ck("C07.components", o.iter = k.names),
                           Ck("C07.params", o.params = m.ps),
                           Ck("C07.independent", o.indep = k.ind /\ o.sig = ArgOrder(k)),
                           Ck("C07.kind", o.kind = KindName(k)),
                           Ck("C07.type", o.ctype = k.ctype)>>)
OpConcall(st, e) ==
  LET k == st.O[e.c]  n == Len(k.ps)
      args == [s \in DOMAIN Fn(e.kw) |-> DataArr(Fn(e.kw)[s])]
  IN  IF Failed(e) THEN Res(st, <<Ck("C07.raised", FALSE)>>)
      ELSE LET L == IF Has(e.obs, "hess") THEN 2 ELSE 1
               a == EvalM(k, args, k.ps, L)[k.con]
               sh == AtLeast1(a.sh)
           IN  Res(st, <<Ck("C07.value", CloseOut(e.obs.val, sh, ValArr(a).d)),
                         CkIf(Has(e.obs, "jac"), "C07.jacobian",
                              Has(e.obs, "jac") /\ CloseOut(e.obs.jac, <<n>> \o sh, Flat(JacArr(a, n)))),
                         CkIf(Has(e.obs, "hess"), "C07.hessian",
                              Has(e.obs, "hess") /\ CloseOut(e.obs.hess, <<n, n>> \o sh, Flat(HessArr(a, n))))>>)

---------------------------------------------------------------------------
(* Calling an expression (C29) *)
OpExprcall(st, e) ==
  LET PN == ParNames(st)
      sy == Syms(e.e)
      order == SortNames(sy \ PN) \o SortNames(sy \cap PN)
      kw == SelectSeq(e.kw, LAMBDA p : p[1] \in sy)
  IN  IF ~BindOk(order, e.pos, kw) THEN Res(st, <<Ck("C29.refuse", Failed(e))>>)
      ELSE IF Failed(e) THEN Res(st, <<Ck("C29.raised", FALSE)>>)
      ELSE LET b == Bound(order, e.pos, kw)
               a == EvalModel(<<[n |-> "$e", e |-> e.e]>>, [n \in DOMAIN b |-> DataArr(b[n])], <<>>, 0)["$e"]
           IN  Res(st, <<Ck("C29.value", /\ BC2(e.obs.out.sh, a.sh) = a.sh \/ e.obs.out.sh = <<1>>
                                         /\ e.obs.out.sh = a.sh \/ Prod(a.sh) = 1
                                         /\ CloseSeq(e.obs.out.d, ValArr(a).d, RT, "100"))>>)
=============================================================================
