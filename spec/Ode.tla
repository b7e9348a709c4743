-------------------------------- MODULE Ode --------------------------------
(* Initial value problems y' = f(t, y, p), y(t0) = y0: the solution at the  *)
(* requested times with its derivatives in the parameters (jets), by the    *)
(* Runge-Kutta-Fehlberg scheme of order 8 with its own error estimate; a     *)
(* step with too large an estimate is halved.                               *)
(* A model record of kind "ODE" has defs (the right-hand sides), tv (name of *)
(* the independent variable), t0, init (for every dependent variable         *)
(* [p |-> parameter] or [v |-> number]).                                     *)
EXTENDS Matrix

ASSUME TLCSet(42, <<>>)
DIG == 26
RKC == <<"0", "2/27", "1/9", "1/6", "5/12", "1/2", "5/6", "1/6", "2/3", "1/3", "1", "0", "1">>
RKA == <<
  <<>>,
  <<"2/27">>,
  <<"1/36", "1/12">>,
  <<"1/24", "0", "1/8">>,
  <<"5/12", "0", "-25/16", "25/16">>,
  <<"1/20", "0", "0", "1/4", "1/5">>,
  <<"-25/108", "0", "0", "125/108", "-65/27", "125/54">>,
  <<"31/300", "0", "0", "0", "61/225", "-2/9", "13/900">>,
  <<"2", "0", "0", "-53/6", "704/45", "-107/9", "67/90", "3">>,
  <<"-91/108", "0", "0", "23/108", "-976/135", "311/54", "-19/60", "17/6", "-1/12">>,
  <<"2383/4100", "0", "0", "-341/164", "4496/1025", "-301/82", "2133/4100", "45/82", "45/164", "18/41">>,
  <<"3/205", "0", "0", "0", "0", "-6/41", "-3/205", "-3/41", "3/41", "6/41", "0">>,
  <<"-1777/4100", "0", "0", "-341/164", "4496/1025", "-289/82", "2193/4100", "51/82", "33/164", "12/41", "0", "1">> >>
RKB == <<"0", "0", "0", "0", "0", "34/105", "9/35", "9/35", "9/280", "9/280", "0", "41/840", "41/840">>

\* y + h * sum a[j] k[j] of numbers, rounded
Comb(y, h, a, k) ==
  LET J == SelectSeq([j \in DOMAIN a |-> j], LAMBDA j : a[j] # "0")
  IN  RRound(RAdd(y, RMul(h, RSum([i \in DOMAIN J |-> RMul(a[J[i]], k[J[i]])]))), DIG)
\* the same of jets
CombJ(y, h, a, k, L) ==
  [v |-> Comb(y.v, h, a, [j \in DOMAIN k |-> k[j].v]),
   g |-> IF L >= 1 THEN [i \in DOMAIN y.g |-> Comb(y.g[i], h, a, [j \in DOMAIN k |-> k[j].g[i]])] ELSE <<>>,
   h |-> IF L >= 2 THEN [i \in DOMAIN y.g |-> [l \in DOMAIN y.g |->
                          Comb(y.h[i][l], h, a, [j \in DOMAIN k |-> k[j].h[i][l]])]] ELSE <<>>]

RoundJ(x, L) == [v |-> RRound(x.v, DIG),
                 g |-> IF L >= 1 THEN [i \in DOMAIN x.g |-> RRound(x.g[i], DIG)] ELSE <<>>,
                 h |-> IF L >= 2 THEN [i \in DOMAIN x.g |-> [j \in DOMAIN x.g |-> RRound(x.h[i][j], DIG)]] ELSE <<>>]

\* right-hand sides, in the order of the dependent variables
Rhs(m, pj, t, y, n, L) ==
  LET env == TLCEval((m.tv :> Const(t, n, L)) @@ [s \in SeqSet(m.dep) |-> y[IndexOf(m.dep, s)]] @@ pj)
  IN  TLCEval([i \in DOMAIN m.dep |-> RoundJ(Ev(DefOf(m.defs, m.dep[i]), env, n, L), L)])

\* one step: [y, e] with the new state and the error estimate
RKStep(m, pj, t, y, h, n, L) ==
  LET stage(K, i) ==
        LET yi == IF i = 1 THEN y
                  ELSE TLCEval([c \in DOMAIN y |-> CombJ(y[c], h, RKA[i], [j \in 1..(i - 1) |-> K[j][c]], L)])
        IN  TLCEval(Append(K, Rhs(m, pj, RAdd(t, RMul(RKC[i], h)), yi, n, L)))
      K == FoldLeft(stage, <<>>, [i \in 1..13 |-> i])
      est(c) == RAbs(RMul(RMul(h, "41/840"), RSub(RAdd(K[1][c].v, K[11][c].v), RAdd(K[12][c].v, K[13][c].v))))
  IN  [y |-> TLCEval([c \in DOMAIN y |-> CombJ(y[c], h, RKB, [j \in 1..13 |-> K[j][c]], L)]),
       e |-> RMaxSeq([c \in DOMAIN y |-> est(c)])]
RECURSIVE Advance(_, _, _, _, _, _, _, _)
Advance(m, pj, t, y, h, n, L, depth) ==
  LET s == TLCEval(RKStep(m, pj, t, y, h, n, L))
  IN  IF depth = 0 \/ RLe(s.e, "1/10000000000") THEN s.y
      ELSE LET h2 == RDiv(h, "2")
               mid == TLCEval(Advance(m, pj, t, y, h2, n, L, depth - 1))
           IN  Advance(m, pj, RAdd(t, h2), mid, h2, n, L, depth - 1)
\* from t to u in equal steps of at most 1/4
Between(m, pj, t, u, y, n, L) ==
  LET k == RToInt(RNeg(RFloor(RNeg(RMul("4", RAbs(RSub(u, t)))))))
      h == RDiv(RSub(u, t), RInt(k))
  IN  FoldLeft(LAMBDA a, i : TLCEval(Advance(m, pj, RAdd(t, RMul(RInt(i - 1), h)), a, h, n, L, 5)),
               y, [i \in 1..k |-> i])
\* solution at times ts (ordered away from t0): function from times to states
Travel(m, pj, ts, y0, n, L) ==
  FoldLeft(LAMBDA a, u : LET y == TLCEval(Between(m, pj, a.t, u, a.y, n, L))
                         IN  [t |-> u, y |-> y, f |-> TLCEval((u :> y) @@ a.f)],
           [t |-> m.t0, y |-> y0, f |-> (m.t0 :> y0)], ts).f

\* args: function from names of the independent variable and the parameters to arrays
SolveOde(m, args, ps, L) ==
  LET n == Len(ps)
      pj == TLCEval([p \in SeqSet(m.ps) |->
              IF p \in SeqSet(ps) THEN Seed(args[p].d[1], IndexOf(ps, p), n, L) ELSE Const(args[p].d[1], n, L)])
      y0 == TLCEval([i \in DOMAIN m.dep |-> LET c == m.init[m.dep[i]]
                       IN IF c.k = "p" THEN pj[c.x] ELSE Const(c.x, n, L)])
      T == args[m.tv]
      S == SeqSet(T.d)
      up == SetToSortSeq({u \in S : RLt(m.t0, u)}, RLt)
      dn == SetToSortSeq({u \in S : RLt(u, m.t0)}, LAMBDA a, b : RLt(b, a))
      f == TLCEval(Travel(m, pj, up, y0, n, L) @@ Travel(m, pj, dn, y0, n, L))
  IN  TLCEval([s \in SeqSet(m.dep) |->
         [sh |-> AtLeast1(T.sh), j |-> [k \in DOMAIN T.d |-> f[T.d[k]][IndexOf(m.dep, s)]]]]
       @@ JetEnv(args, ps, L))
\* integrating is expensive, so the last solutions are remembered (register 42)
EvalOde(m, args, ps, L) ==
  LET key == TLCEval(<<m.defs, m.init, m.tv, m.t0, [a \in SeqSet(m.ps) \cup {m.tv} |-> args[a]], ps, L>>)
      got == SelectSeq(TLCGet(42), LAMBDA x : x.key = key)
  IN  IF got # <<>> THEN got[1].sol
      ELSE LET sol == TLCEval(SolveOde(m, args, ps, L))
               old == TLCGet(42)
               new == <<[key |-> key, sol |-> sol]>> \o SubSeq(old, 1, IF Len(old) < 5 THEN Len(old) ELSE 5)
           IN  IF TLCSet(42, new) THEN sol ELSE sol
=============================================================================
