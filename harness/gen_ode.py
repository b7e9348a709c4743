"""Scenarios over differential-equation models (C08, C09)."""
from genbase import *
from gen_sym import args
from gen_fit import (Prob, declare, named, passing, fit_ev, exec_ev, point_of, mutate, free, setp, TIGHT)

TOL33, TOL40 = '1/8589934592', '1/1099511627776'
T33, T40 = '1/1000000', '1/1000000'


class Ode:
    """a system with float integration, to keep solutions moderate"""
    def __init__(self, g, nv=None, npar=None, allow_init=True, far=False):
        r = g.r
        self.g = g
        nv = nv or r.choice([1, 1, 2, 2, 3])
        npar = npar or r.choice([1, 2, 2, 3])
        nm = g.names(1 + nv + npar)
        if r.random() < .25:
            nm = sorted(nm, reverse=r.random() < .5)
        self.t, self.vs, ps = nm[0], nm[1:1 + nv], nm[1 + nv:]
        self.init, used_init = {}, []
        for v in self.vs:
            if allow_init and r.random() < .45:
                p = r.choice(ps)
                used_init.append(p)
                self.init[v] = {'p': p}
            else:
                self.init[v] = {'v': str(g.val(-2, 2))}
        left = [p for p in ps if p not in used_init or r.random() < .5]
        r.shuffle(left)
        self.defs = []
        for i, v in enumerate(self.vs):
            own = left[i::nv]
            if not own and r.random() < .6:
                own = [r.choice(ps)]
            self.defs.append({'n': v, 'e': self.rhs(v, own)})
        r.shuffle(self.defs)
        if r.random() < .5:
            r.shuffle(self.vs)
        self.pars = sorted(set(used_init) | {x for d in self.defs for x in syms(d['e']) if x in ps})
        self.t0 = r.choice([Fr(0), Fr(0), Fr(0), Fr(1), Fr(-1, 2), Fr(1, 4), Fr(2)] + ([Fr(-800), Fr(800)] if far else []))
        self.initial = [[v, self.init[v]] for v in self.vs] + [[self.t, {'v': str(self.t0)}]]
        r.shuffle(self.initial)
        self.ok = bool(self.pars) and all(g.ok(d['e']) for d in self.defs)
        if any(not (syms(d['e']) & set(self.vs + [self.t])) and not syms(d['e']) for d in self.defs):
            self.ok = False

    def rhs(self, v, own):
        g, r = self.g, self.g.r
        half = [Fr(1, 2), Fr(-1, 2), Fr(-1), Fr(1, 4), Fr(-3, 4), Fr(1)]
        ts = []
        for p in own:
            o = r.choice(self.vs)
            y = s(o)
            ch = r.randrange(9)
            if ch <= 2:
                ts.append(mul(c(r.choice(half)), s(p), y))
            elif ch == 3:
                ts.append(mul(s(p), add(c(1), mul(c(-1), y))))
            elif ch == 4:
                ts.append(mul(s(p), y, add(c(1), mul(c(Fr(-1, 2)), y))))
            elif ch == 5:
                ts.append(mul(s(p), fn('sin', y)))
            elif ch == 6:
                ts.append(mul(c(r.choice(half)), s(p)))
            elif ch == 7:
                ts.append(mul(s(p), fn('exp', mul(c(-1), pw(y, 2)))))
            else:
                ts.append(mul(c(r.choice(half)), s(p), s(self.t)))
        k = r.random()
        if k < .35 or not ts:
            ts.append(mul(c(r.choice(half)), s(r.choice(self.vs))))
        if k > .7:
            ts.append(r.choice([mul(c(r.choice(half)), s(self.t)), fn('cos', s(self.t)), c(r.choice(half)),
                                mul(c(Fr(-1, 2)), s(self.t), s(v))]))
        r.shuffle(ts)
        return add(*ts) if len(ts) > 1 else ts[0]

    def solve(self, pv, times, n=None):
        """float solution at the sorted unique times (RK4)"""
        vs = sorted(self.vs)
        by = {d['n']: d['e'] for d in self.defs}
        pf = {p: float(pv[p]) for p in self.pars}
        y0 = [pf[self.init[v]['p']] if 'p' in self.init[v] else float(Fr(self.init[v]['v'])) for v in vs]

        def f(t, y):
            env = dict(pf)
            env.update(zip(vs, y))
            env[self.t] = t
            return np.array([float(evalf(by[v], env)) for v in vs])
        out, top = {}, 0
        t0 = float(self.t0)
        for side in (sorted(t for t in times if t > self.t0), sorted([t for t in times if t < self.t0], reverse=True)):
            t, y = t0, np.array(y0)
            for u in side:
                k = max(1, int(abs(float(u) - t) * (n or 20)) + 1)
                h = (float(u) - t) / k
                for i in range(k):
                    k1 = f(t, y)
                    k2 = f(t + h / 2, y + h / 2 * k1)
                    k3 = f(t + h / 2, y + h / 2 * k2)
                    k4 = f(t + h, y + h * k3)
                    y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
                    t += h
                    top = max(top, np.max(np.abs(y)), np.max(np.abs(k1)))
                    if not top < 1e3:
                        return None, 1e9
                t = float(u)
                out[u] = dict(zip(vs, y))
        out[self.t0] = dict(zip(vs, y0))
        return out, top

    def times(self, kind=None):
        g, r = self.g, self.g.r
        kind = kind or r.choice(['after', 'both', 'both', 'before', 'unsorted', 'dup', 'single', 'scalar', 't0', 'all0', 'near'])
        if abs(self.t0) > 100 and r.random() < .5:
            kind = 'near'
        k = r.choice([2, 3, 4, 5])
        pos = [self.t0 + Fr(r.randint(1, 16), 8) for _ in range(k)]
        neg = [self.t0 - Fr(r.randint(1, 12), 8) for _ in range(k)]
        if kind == 'after':
            ts = sorted(set(pos))
        elif kind == 'before':
            ts = sorted(set(neg))
        elif kind == 'both':
            ts = sorted(set(r.sample(pos + neg, k) + ([self.t0] if r.random() < .5 else [])))
        elif kind == 'unsorted':
            ts = list(set(pos + neg[:2] + ([self.t0] if r.random() < .5 else [])))
            r.shuffle(ts)
        elif kind == 'dup':
            ts = pos + [pos[0]] + ([self.t0, self.t0] if r.random() < .5 else [neg[0], neg[0]])
            if r.random() < .5:
                r.shuffle(ts)
            else:
                ts = sorted(ts)
        elif kind == 'near':       # short after and before a possibly far away initial time
            ts = [self.t0 + Fr(r.randint(-7, 7), 1024) for _ in range(k)]
        elif kind in ('single', 'scalar'):
            ts = [r.choice([pos[0], neg[0], self.t0])]
        elif kind == 't0':
            ts = sorted(set([self.t0] + pos[:2] + neg[:1])) if r.random() < .6 else [self.t0] + sorted(set(pos))
        else:
            ts = [self.t0] * r.choice([1, 2, 3])
        if kind == 'scalar':
            return ts, g.num(ts[0])
        d = {'k': 'arr', 'sh': [len(ts)], 'd': [str(x) for x in ts]}
        if r.random() < .2:
            d['as'] = 'list'
        return ts, d

    def values(self, times, tries=20, lim=12):
        for k in range(tries):
            pv = {p: self.g.val(-2, 2) * (1 if k < 8 else Fr(1, 2)) for p in self.pars}
            sol, top = self.solve(pv, times)
            if sol is not None and top < lim:
                return pv
        return None

    def event(self, mid, opts, vtol):
        return {'op': 'model', 'id': mid, 'kind': 'ODE', 't': self.t, 'defs': self.defs, 'initial': self.initial,
                't0': str(self.t0), 'opts': opts, 'vtol': vtol}


def opts_of(g, tight=False):
    r = g.r
    if tight:
        return {'method': r.choice(['DOP853', 'DOP853', 'RK45']), 'rtol': TOL40, 'atol': TOL40}, '1/10000000'
    ch = r.random()
    if ch < .35:
        return {}, '1/20000'
    if ch < .45:
        return {'rtol': TOL33}, '1/20000'
    if ch < .55:
        return {'method': 'LSODA', 'rtol': TOL33, 'atol': TOL33}, '1/100000'
    if ch < .85:
        return {'method': r.choice(['RK45', 'DOP853', 'Radau', 'RK45', 'DOP853']), 'rtol': TOL33, 'atol': TOL33}, '1/1000000'
    if ch < .92:
        return {'method': 'RK45', 'max_step': '1/32'}, '1/10000'
    return {'method': 'RK45', 'rtol': TOL33, 'atol': TOL33, 'first_step': '1/64'}, '1/1000000'


def make_ode(g, **kw):
    for _ in range(40):
        o = Ode(g, **kw)
        if o.ok:
            return o
    return None


def sc_ode(g):
    """C08, C09: solutions at all kinds of requested times, settings, roles, negation"""
    r = g.r
    o = make_ode(g, far=True)
    if not o:
        return None
    ev = []
    for p in o.pars:
        a = param(p, g.val(-2, 3))
        if r.random() < .2:
            a['fixed'] = 'true'
        ev.append(a)
    r.shuffle(ev)
    opts, vtol = opts_of(g)
    ev.append(o.event('m', opts, vtol))
    ids = ['m']
    order = [o.t] + o.pars
    last = None
    for k in range(r.choice([2, 3])):
        ts, d = o.times()
        if 'first_step' in opts and any(0 < abs(t - o.t0) < Fr(1, 16) for t in ts):
            continue           # scipy refuses a first step beyond the end
        pv = o.values(ts)
        if pv is None:
            continue
        vals = {o.t: d, **{p: g.num(v) for p, v in pv.items()}}
        ev.append(dict(op='call', m=r.choice(ids), pick=r.random() < .25, **args(g, vals, order)))
        last = (ts, vals)
        if k == 0 and r.random() < .4:
            neg = dict(o.__dict__)
            ev.append({'op': 'neg', 'm': 'm', 'id': 'n'})
            o2 = Ode.__new__(Ode)
            o2.__dict__.update(neg)
            o2.defs = [dict(x, e=mul(c(-1), x['e'])) for x in o.defs]
            for _ in range(10):
                pv2 = {p: g.val(-1, 1) for p in o.pars}
                sol, top = o2.solve(pv2, ts)
                if sol is not None and top < 12:
                    vals2 = {o.t: d, **{p: g.num(v) for p, v in pv2.items()}}
                    ev.append(dict(op='call', m='n', **args(g, vals2, order)))
                    break
            if r.random() < .5:
                ev.append({'op': 'mobs', 'm': 'm'})
        if r.random() < .25:
            ev.append({'op': 'pickle', 'x': 'm', 'id': 'p', 'proto': r.choice([2, 4, 5])})
            ev.append(dict(op='call', m='p', **args(g, vals, order)))
    if last and r.random() < .2:
        bad = args(g, last[1], order, r.choice(['pos', 'kw']))
        (bad['pos'] or bad['kw']).pop()
        ev.append(dict(op='call', m='m', **bad))
    return ev if last else None


def sc_odejac(g):
    """C05, C09: finite-difference Jacobians of ODE models with tight tolerances"""
    r = g.r
    o = make_ode(g, nv=r.choice([1, 1, 2]), npar=r.choice([1, 2, 3]))
    if not o:
        return None
    ev = [param(p, g.val(-2, 3)) for p in o.pars]
    opts, vtol = opts_of(g, True)
    ev.append(o.event('m', opts, vtol))
    ts, d = o.times(r.choice(['after', 'both', 'unsorted', 'dup', 't0', 'before']))
    pv = o.values(ts)
    if pv is None:
        return None
    vals = {o.t: d, **{p: g.num(v) for p, v in pv.items()}}
    order = [o.t] + o.pars
    if r.random() < .6:
        ev.append(dict(op='fd', m='m', mag='2000', dx='1/2000', **args(g, vals, order)))
    ev.append(dict(op='jac', m='m', **args(g, vals, order)))
    return ev


def ode_problem(g, o, n=None):
    """data around a solution: a Prob over an ODE"""
    r = g.r
    pb = Prob.__new__(Prob)
    pb.g, pb.defs, pb.pars, pb.inds, pb.deps = g, o.defs, o.pars, [o.t], sorted(o.vs)
    ts, d = o.times(r.choice(['after', 'both', 'unsorted', 'dup', 't0']))
    if len(ts) < 4 or len(set(ts)) < 3:
        return None
    pb.ind = {o.t: {k: v for k, v in d.items() if k != 'as'}}
    pb.p0 = o.values(ts, lim=8)
    if pb.p0 is None:
        return None
    sol, _ = o.solve(pb.p0, ts)
    pb.dat, pb.sig = {}, {}
    for v in pb.deps:
        pb.dat[v] = {'k': 'arr', 'sh': [len(ts)],
                     'd': [str(Fr(round(float(sol[t][v]) * 64), 64) + Fr(r.randint(-6, 6), 64)) for t in ts]}

    def small(pv, lim=None):
        s_, top = o.solve(pv, ts)
        return s_ is not None and top < 12
    pb.small = small
    pb.pick = lambda tries=30, lo=-2, hi=2, base=None, spread=Fr(1, 2): _pick(g, pb, base or pb.p0, spread)
    return pb


def _pick(g, pb, base, spread):
    for k in range(15):
        pv = {p: base[p] + g.val(-1, 1) * Fr(1, 4) for p in pb.pars}
        if pb.small(pv):
            return pv
    return None


def sc_odefit(g):
    """C09: fits of ODE models: objectives at probes, scripted and real optimisers"""
    r = g.r
    for _ in range(30):
        o = make_ode(g, nv=r.choice([1, 1, 2]), npar=r.choice([1, 2, 2]))
        pb = ode_problem(g, o) if o else None
        if pb:
            break
    else:
        return None
    P, ev = declare(g, pb, fix=.25, bound=.25)
    opts, vtol = opts_of(g, True)
    ev.append(o.event('m', opts, vtol))
    if r.random() < .25:
        ev.append({'op': 'pickle', 'x': 'm', 'id': 'q', 'proto': 4})
        mid = 'q'
    else:
        mid = 'm'
    kw = named(g, pb, drop=.25 if len(pb.deps) > 1 else 0)
    real = r.random() < .35
    z = r.choice(['', '', 'BFGS', 'MINPACK', 'SLSQP', 'LBFGSB', 'NelderMead'])
    if z == 'MINPACK':
        for p in pb.pars:
            a = P[p]
            if real and ((a['min'] is not None and a['min'] >= a['value']) or (a['max'] is not None and a['max'] <= a['value'])):
                z = ''
    from gen_fit import dorder
    a, k = passing(g, dorder(pb), kw)
    ev.append(fit_ev('f', m=mid, args=a, kw=k, mz=[z] if z else [], tags=['C09'], objective='none',
                     abs=r.choice(['none', 'none', 'true', 'false'])))
    if real:
        ev.append(exec_ev('f', 'r', opts=dict(TIGHT) if z == 'MINPACK' else {}, expect='stationary'))
    else:
        for i in range(2):
            x, pr = point_of(pb, P), point_of(pb, P)
            if x is None or pr is None:
                break
            ev.append(exec_ev('f', 'r%d' % i, probes=[pr],
                              script=[{'x': x, 'nit': 3, 'nfev': 4, 'message': 'ok'}]))
            m = mutate(g, pb, P, r.choice(['fixed', 'value']))
            if m is None:
                break
            ev += m
    if r.random() < .4:
        pr = point_of(pb, P)
        if pr:
            ev.append({'op': 'obj', 'f': 'f', 'what': r.choice(['val', 'comp', 'jac']), 'at': [str(v) for v in pr],
                       'kw': [], 'style': 'pos'})
    return ev
