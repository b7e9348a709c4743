----------------------------- MODULE TraceBase -----------------------------
(* Common parts of the trace specification: reading recorded events,       *)
(* argument binding, verdict clauses.                                       *)
(* A clause is <<name, status>> with status "ok", "bad" or "skip"; names    *)
(* start with the property they decide.                                     *)
EXTENDS Ode, Json, IOUtils

Has(e, f) == f \in DOMAIN e
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
Ck(name, cond) == <<name, IF cond THEN "ok" ELSE "bad">>
Sk(name) == <<name, "skip">>
CkIf(g, name, cond) == IF ~g THEN Sk(name) ELSE Ck(name, cond)
Failed(e) == e.obs.err # ""

\* pairs <<k, v>> of a JSON list as a function
Fn(s) == [k \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = k][2]]
Keys(s) == [i \in DOMAIN s |-> s[i][1]]
Vals(s) == [i \in DOMAIN s |-> s[i][2]]
Unique(s) == Cardinality(SeqSet(s)) = Len(s)
EmptyFn == [x \in {} |-> x]
With(f, k, v) == (k :> v) @@ f
Pick(f, S) == [k \in S |-> f[k]]
SubsetSeq(s, S) == SelectSeq(s, LAMBDA x : x \in S)
MapSeq(s, f(_)) == [i \in DOMAIN s |-> f(s[i])]
JsonS(s) == "\"" \o s \o "\""
Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

(* Binding of positional and keyword arguments to an ordered signature *)
BindOk(order, pos, kw) ==
  LET got == SubSeq(order, 1, IF Len(pos) < Len(order) THEN Len(pos) ELSE Len(order))
      ks == Keys(kw)
  IN  /\ Len(pos) <= Len(order)
      /\ Unique(ks)
      /\ SeqSet(ks) \subseteq SeqSet(order)
      /\ SeqSet(ks) \cap SeqSet(got) = {}
      /\ SeqSet(ks) \cup SeqSet(got) = SeqSet(order)
Bound(order, pos, kw) ==
  [n \in SeqSet(order) |-> IF IndexOf(order, n) <= Len(pos) THEN pos[IndexOf(order, n)]
                           ELSE Fn(kw)[n]]

Res(st, v) == [st |-> st, v |-> v]
SetObj(st, id, o) == [st EXCEPT !.O = With(@, id, o)]
ParNames(st) == DOMAIN st.P
\* P parameters, O objects, V names of variables, A names of unnamed symbols,
\* B dumps, C objects with cached attributes
EmptyState == [P |-> EmptyFn, O |-> EmptyFn, V |-> {}, A |-> <<>>, B |-> EmptyFn, C |-> EmptyFn]
FreeOf(st, ps) == SelectSeq(ps, LAMBDA p : st.P[p].fixed = "false")

\* tolerances
RT == "1/100000000"
CloseOut(o, sh, d) == o.sh = sh /\ CloseSeq(o.d, d, RT, "100")
=============================================================================
