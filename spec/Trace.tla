-------------------------------- MODULE Trace -------------------------------
(* Validation of recorded behaviours of symfit.  A trace file holds cases   *)
(* (sessions); each is a sequence of events with what was observed.  The    *)
(* session state is the abstract state of parameters, models, fits and      *)
(* results; every event moves it and yields verdict clauses.                *)
EXTENDS TraceSession

TraceFile == IOEnv.TRACE_FILE
Cases == ndJsonDeserialize(TraceFile)

VARIABLES ci, ei, st
vars == <<ci, ei, st>>

Step(s, e) ==
  CASE e.op = "param" -> OpParam(s, e)
    [] e.op = "var" -> OpVar(s, e)
    [] e.op = "msym" -> OpMsym(s, e)
    [] e.op = "setp" -> OpSetp(s, e)
    [] e.op = "getp" -> OpGetp(s, e)
    [] e.op = "psnap" -> OpPsnap(s, e)
    [] e.op = "model" -> OpModel(s, e)
    [] e.op = "mobs" -> OpMobs(s, e)
    [] e.op = "call" -> OpCall(s, e)
    [] e.op = "jac" -> OpJac(s, e)
    [] e.op = "hess" -> OpHess(s, e)
    [] e.op = "fd" -> OpFd(s, e)
    [] e.op = "symjac" -> OpSymjac(s, e)
    [] e.op = "neg" -> OpNeg(s, e)
    [] e.op = "meq" -> OpMeq(s, e)
    [] e.op = "con" -> OpCon(s, e)
    [] e.op = "concall" -> OpConcall(s, e)
    [] e.op = "exprcall" -> OpExprcall(s, e)
    [] e.op = "fit" -> OpFit(s, e)
    [] e.op = "fitobs" -> OpFitobs(s, e)
    [] e.op = "mkobj" -> OpMkobj(s, e)
    [] e.op = "obj" -> OpObj(s, e)
    [] e.op = "oeq" -> OpOeq(s, e)
    [] e.op = "mini" -> OpMini(s, e)
    [] e.op = "exec" -> OpExec(s, e)
    [] e.op = "res" -> OpRes(s, e)
    [] e.op = "pickle" -> OpPickle(s, e)
    [] e.op = "dump" -> OpDump(s, e)
    [] e.op = "load" -> OpLoad(s, e)
    [] e.op = "fsym" -> OpFsym(s, e)
    [] e.op = "params" -> OpParams(s, e)
    [] e.op = "vars" -> OpVars(s, e)
    [] e.op = "anon" -> OpAnon(s, e)
    [] e.op = "peq" -> OpPeq(s, e)
    [] e.op = "peqattr" -> OpPeqattr(s, e)
    [] e.op = "cprop" -> OpCprop(s, e)
    [] e.op = "mcache" -> OpMcache(s, e)
    [] e.op = "dist" -> OpDist(s, e)
    [] e.op = "mstr" -> OpMstr(s, e)
    [] e.op = "resstr" -> OpResstr(s, e)
    [] e.op = "guess" -> OpGuess(s, e)
    [] e.op = "slide" -> OpSlide(s, e)
    [] e.op = "closeguess" -> OpCloseguess(s, e)

\* settings of the integrator seen during an event on a model or a fit
Ivp(s, e) ==
  IF ~Has(e.obs, "ivp") THEN <<>>
  ELSE IF e.op \in {"call", "jac", "fd"} THEN IvpClauses(s.O[e.m], e.obs)
  ELSE IF e.op \in {"obj", "exec"} THEN IvpClauses(ObjOf(s.O[e.f]).m, e.obs)
  ELSE <<>>
\* does the event refer to something that could not be made before?
RefFields == {"m", "x", "y", "c", "f", "r", "g", "oid"}
Dangling(s, e) ==
  IF e.op \in {"dump", "load"} THEN (IF e.op = "load" THEN e.b \notin DOMAIN s.B ELSE ~(SeqSet(e.xs) \subseteq DOMAIN s.O))
  ELSE \E k \in RefFields \cap DOMAIN e :
         e.op \notin {"peq", "peqattr", "params"} /\ ~Get(e, "sym", FALSE) /\ e[k] \notin DOMAIN s.O
\* objects the event is about, after it happened
RefObjs(s, e) == {s.O[e[k]] : k \in {j \in (RefFields \cup {"id"}) \cap DOMAIN e :
                      e.op \notin {"peq", "peqattr", "params", "dump", "load"} /\ ~Get(e, "sym", FALSE) /\ e[j] \in DOMAIN s.O}}
\* clauses which also count for another property
Also(pre, v) == [i \in DOMAIN v |-> <<pre \o "." \o v[i][1], v[i][2]>>]
Extra(s, e, v) ==
  LET w == SelectSeq(v, LAMBDA c : c[1] # "C24.multidof")
      R == RefObjs(s, e)
  IN  (IF e.op # "pickle" /\ \E o \in R : Has(o, "rest") THEN Also("C26", w) ELSE <<>>)
      \o (IF \E o \in R : IsNumerical(o) THEN Also("C10", w) ELSE <<>>)

Count(v) == TLCSet(1, FoldLeft(LAMBDA acc, c : With(acc, c[1],
              LET old == IF c[1] \in DOMAIN acc THEN acc[c[1]] ELSE [ok |-> 0, bad |-> 0, skip |-> 0]
              IN  [old EXCEPT ![c[2]] = @ + 1]), TLCGet(1), v))
Report(v) == \A i \in DOMAIN v :
               IF v[i][2] # "bad" THEN TRUE ELSE PrintT("@BAD|" \o Cases[ci].id \o "|" \o ToString(ei + 1) \o "|" \o v[i][1])

Init == /\ ci \in 1..Len(Cases)
        /\ ei = 0
        /\ st = EmptyState
Next == /\ ei < Len(Cases[ci].ev)
        /\ LET e == Cases[ci].ev[ei + 1]
               fr == Has(e, "fresh")           \* happened in another interpreter
               lost == fr /\ e.fresh \notin DOMAIN st.B
               s == IF ~fr \/ lost THEN st ELSE st.B[e.fresh]
           IN  IF lost \/ Dangling(s, e) THEN st' = st /\ Count(<<Sk("dangling")>>)
               ELSE LET r == TLCEval(Step(s, e))
                        v0 == r.v \o Ivp(s, e)
                        v == TLCEval(v0 \o Extra(r.st, e, v0))
                    IN  /\ Count(v)
                        /\ Report(v)
                        /\ st' = IF fr THEN [st EXCEPT !.B[e.fresh] = r.st] ELSE r.st
        /\ ei' = ei + 1
        /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, EmptyFn)
Summary == \A c \in DOMAIN TLCGet(1) :
             LET k == TLCGet(1)[c] IN PrintT("@SUM|" \o c \o "|" \o ToString(k.ok) \o "|" \o ToString(k.bad) \o "|" \o ToString(k.skip))
=============================================================================
