"""Scenarios over fits: data binding, objectives, choice of minimiser, calls of the
optimiser (scripted and real), results, histories (C11-C25, C31)."""
from genbase import *
from gen_sym import graph, order_of, decl, model_ev, reach

TIGHT = {k: {'num': '1/10000000000000'} for k in ('ftol', 'xtol', 'gtol')}
TIGHT['max_nfev'] = {'int': 3000}
LOCAL = ['BFGS', 'SLSQP', 'COBYLA', 'LBFGSB', 'NelderMead', 'Powell', 'TrustConstr']
BOUNDED = ['SLSQP', 'LBFGSB', 'TrustConstr', 'MINPACK', 'DifferentialEvolution']
CONSTR = ['SLSQP', 'COBYLA', 'TrustConstr']
NONE = {'k': 'none', 'sh': [], 'd': []}


def topo(defs):
    todo, done, names = list(defs), [], {d['n'] for d in defs}
    while todo:
        for d in todo:
            if not (syms(d['e']) & {x['n'] for x in todo}):
                done.append(d)
                todo.remove(d)
                break
        else:
            return None
    return done


def evalall(defs, env):
    env = dict(env)
    with np.errstate(all='ignore'):
        for d in topo(defs):
            env[d['n']] = np.asarray(evalf(d['e'], env), dtype=float)
    return env


def deps(defs):
    used = set().union(*[syms(d['e']) for d in defs])
    return sorted(d['n'] for d in defs if d['n'] not in used)


class Prob:
    """A model with data and parameter values."""
    lim = 60

    def __init__(self, g, defs, pars, inds, ind=None, mode='vec', ysame=False, positive=False):
        self.g, self.defs, self.pars, self.inds = g, defs, sorted(pars), sorted(inds)
        self.deps = deps(defs)
        self.ok = self.setup(ind, mode, ysame, positive)

    def env(self, pv):
        e = {n: fl(v) for n, v in self.ind.items()}
        e.update({p: np.asarray(float(pv[p])) for p in self.pars})
        return e

    def small(self, pv, lim=None):
        try:
            return self.g.small(self.defs, self.env(pv), lim or self.lim)
        except (ValueError, FloatingPointError):
            return False

    def pick(self, tries=30, lo=-2, hi=2, base=None, spread=1):
        """parameter values with moderate components"""
        for k in range(tries):
            if base:
                pv = {p: base[p] + self.g.val(-spread, spread) * (1 if k < 15 else Fr(1, 4)) for p in self.pars}
            else:
                m = 1 if k < 15 else Fr(1, 2)
                pv = {p: self.g.val(lo, hi) * m for p in self.pars}
            if self.small(pv):
                return pv
        return None

    def setup(self, ind, mode, ysame, positive):
        g, r = self.g, self.g.r
        n = r.choice([2, 3, 3, 4, 5])
        self.ind = ind or {}
        if not ind:
            for i in self.inds:
                if mode == 'vec':
                    sh = [n]
                elif mode == 'mat':
                    sh = [2, 2]
                else:
                    sh = r.choice([[2, 1], [3], [2, 3], [], [1]])
                self.ind[i] = g.num(g.val(-2, 2)) if sh == [] else g.array(sh, -2, 2)
        self.p0 = self.pick()
        if self.p0 is None:
            return False
        try:
            ev = evalall(self.defs, self.env(self.p0))
        except ValueError:
            return False
        self.dat, self.sig = {}, {}
        for v in self.deps:
            sh = list(np.atleast_1d(ev[v]).shape)
            if np.prod(sh) == 1 and not ysame:
                sh = r.choice([[n], [1], [2, 2], [3]])
            elif ysame:
                sh = sh if np.prod(sh) > 1 else [n]
            elif r.random() < .12 and len(sh) == 1:
                sh = sh + [r.choice([2, sh[0]])]
            a = np.zeros(sh)
            c_ = np.atleast_1d(ev[v])
            while c_.ndim < len(sh):
                c_ = np.expand_dims(c_, -1)
            c_ = np.broadcast_to(c_, sh)
            d = [Fr(round(float(t) * 4), 4) + g.val(-2, 2) for t in c_.ravel()]
            self.dat[v] = {'k': 'arr', 'sh': sh, 'd': [str(t) for t in d]}
        return True

    def sigma(self, v, how=None):
        g, r = self.g, self.g.r
        how = how or r.choice(['none', 'num', 'arr', 'arr'])
        if how == 'none':
            return None
        if how == 'num':
            k = r.random()
            x = g.num(r.choice([Fr(1, 2), Fr(2), Fr(3, 2), Fr(3), Fr(1, 4), Fr(1)]))
            if k < .3 and Fr(x['v']).denominator == 1:
                x['as'] = 'int'
            elif k < .5:
                x['as'] = 'npf'
            elif k < .65:       # zero dimensional array
                x = {'k': 'arr', 'sh': [], 'd': x['d']}
            return x
        sh = self.dat[v]['sh']
        n = int(np.prod(sh))
        return {'k': 'arr', 'sh': list(sh), 'd': [str(r.choice([Fr(1, 2), Fr(1), Fr(2), Fr(3, 2), Fr(1, 4)]))
                                                    for _ in range(n)]}

    def form(self, d):
        r = self.g.r
        d = dict(d)
        if d['k'] == 'arr' and d['sh']:
            k = r.random()
            if k < .15:
                d['as'] = 'list'
            elif k < .22:
                d['as'] = 'tuple'
            elif k < .35:
                d['as'] = 'ro'
            elif k < .42:
                d['as'] = 'f32'
            elif k < .5 and all(Fr(t).denominator == 1 for t in d['d']):
                d['as'] = 'int'
        return d


def named(g, pb, sig=None, drop=0):
    """all data by name: list of pairs, None components dropped with probability drop"""
    r = g.r
    kw = [[n, d] for n, d in pb.ind.items()]
    gone = [v for v in pb.deps if r.random() < drop]
    if len(gone) == len(pb.deps):
        gone = gone[1:]
    for v in pb.deps:
        kw.append([v, NONE if v in gone else pb.form(pb.dat[v])])
    for v in pb.deps:
        if v in gone:
            continue
        s_ = pb.sigma(v, sig)
        if s_ is not None:
            kw.append(['sigma_' + v, pb.form(s_)])
        elif r.random() < .15:
            kw.append(['sigma_' + v, NONE])
    r.shuffle(kw)
    return kw


def dorder(pb, extra=()):
    return sorted(pb.inds) + pb.deps + list(extra) + ['sigma_' + v for v in pb.deps]


def passing(g, order, kw, style=None):
    """split named data into positional and keyword arguments"""
    f = dict((k, v) for k, v in kw)
    style = style or g.r.choice(['kw', 'kw', 'pos', 'mix'])
    if style == 'kw':
        return [], kw
    n = 0
    while n < len(order) and order[n] in f:
        n += 1
    if style == 'mix':
        n = g.r.randint(0, n)
    # a longer prefix may be given with None for what is missing
    return [f[x] for x in order[:n]], [[k, v] for k, v in kw if k not in order[:n]]


def fit_ev(fid, m=None, defs=None, args=(), kw=(), mz=(), chain=False, objective='none', cons=(), abs='none', **x):
    e = {'op': 'fit', 'id': fid, 'args': list(args), 'kw': list(kw), 'mz': list(mz), 'chain': chain,
         'objective': objective, 'cons': list(cons), 'abs': abs}
    if m:
        e['m'] = m
    else:
        e['defs'] = defs
    e.update(x)
    return e


def exec_ev(f, rid, probes=(), script=(), opts=None, seed='none', expect='none'):
    return {'op': 'exec', 'f': f, 'id': rid, 'probes': [[str(v) for v in p] for p in probes],
            'script': [dict(s_, x=[str(v) for v in s_['x']]) for s_ in script], 'opts': opts or {},
            'optkeys': sorted(opts or {}), 'seed': seed, 'expect': expect}


def declare(g, pb, fix=.25, bound=.35):
    """parameter events and the abstract parameter state kept by the generator"""
    r, P, ev = g.r, {}, []
    for p in pb.pars:
        v = pb.p0[p]
        a = {'value': v, 'min': None, 'max': None, 'fixed': r.random() < fix}
        if r.random() < bound:
            a['min'] = v - r.choice([Fr(0), Fr(1, 2), Fr(1), Fr(3)]) if r.random() < .75 else None
            a['max'] = v + r.choice([Fr(0), Fr(1, 2), Fr(2), Fr(5)]) if r.random() < .75 else None
            if a['min'] is not None and a['min'] == a['max']:
                a['max'] += 1
        P[p] = a
    if all(a['fixed'] for a in P.values()):
        P[r.choice(pb.pars)]['fixed'] = False
    for p, a in P.items():
        ev.append(param(p, a['value'], 'none' if a['min'] is None else a['min'],
                        'none' if a['max'] is None else a['max'], 'true' if a['fixed'] else 'false'))
    r.shuffle(ev)
    return P, ev


def setp(n, a, v):
    return {'op': 'setp', 'n': n, 'a': a, 'v': v}


def mutate(g, pb, P, what=None):
    """change one attribute of one parameter"""
    r = g.r
    p = r.choice(pb.pars)
    a = P[p]
    ch = what or r.choice(['value', 'value', 'fixed', 'fixed', 'min', 'max'])
    if ch == 'value':
        nv = pb.pick(base=pb.p0)
        if nv is None:
            return []
        a['value'] = nv[p]
        if not pb.small({q_: P[q_]['value'] for q_ in pb.pars}):
            return None
        return [setp(p, 'value', str(nv[p]))]
    if ch == 'fixed':
        if not a['fixed'] and sum(not x['fixed'] for x in P.values()) == 1:
            return []
        a['fixed'] = not a['fixed']
        return [setp(p, 'fixed', 'true' if a['fixed'] else 'false')]
    v = a['value']
    if ch == 'min':
        a['min'] = r.choice([None, v - 1, v - Fr(1, 2), v])
        if a['min'] is not None and a['max'] is not None and a['min'] >= a['max']:
            a['min'] = None
        return [setp(p, 'min', 'none' if a['min'] is None else str(a['min']))]
    a['max'] = r.choice([None, v + 1, v + Fr(1, 2), v])
    if a['min'] is not None and a['max'] is not None and a['min'] >= a['max']:
        a['max'] = None
    return [setp(p, 'max', 'none' if a['max'] is None else str(a['max']))]


def free(pb, P):
    return [p for p in pb.pars if not P[p]['fixed']]


def point_of(pb, P):
    """values of the free parameters at a random admissible point"""
    for _ in range(20):
        pv = pb.pick(base=pb.p0)
        if pv is None:
            return None
        full = {p: P[p]['value'] if P[p]['fixed'] else pv[p] for p in pb.pars}
        if pb.small(full):
            return [pv[p] for p in free(pb, P)]
    return None


def constraint(g, pb, lin=False, allow_dep=True, extra=None):
    """a relation over parameters (and possibly components)"""
    r = g.r
    avail = list(pb.pars)
    if allow_dep and not lin and r.random() < .35:
        avail += [d['n'] for d in pb.defs]
    for _ in range(20):
        sy = r.sample(avail, min(len(avail), r.choice([1, 2, 2, 3])))
        if extra and r.random() < .7:
            sy = sy + [extra]
        half = r.randint(0, len(sy))
        if lin:
            lhs = add(*[mul(c(r.choice([1, 2, -1])), s(n)) for n in sy])
            rhs = g.const(False)
        else:
            lhs = g.expr(sy[:half], depth=1, funcs=False, need=sy[:half]) if half else g.const(False)
            rhs = g.expr(sy[half:], depth=1, funcs=False, need=sy[half:]) if half < len(sy) else g.const(False)
        if not (syms(lhs) | syms(rhs)) & set(pb.pars + [d['n'] for d in pb.defs]):
            continue
        if g.ok(add(lhs, mul(c(-1), rhs))):
            return {'rel': r.choice(['eq', 'ge', 'le', 'ge', 'le']), 'lhs': lhs, 'rhs': rhs}
    return None


def problem(g, funcs=None, mode=None, ncomp=None, nind=None, npar=None, ysame=False, depth=1, lim=60):
    r = g.r
    for _ in range(60):
        defs, pars, inds = graph(g, funcs=r.random() < .4 if funcs is None else funcs, depth=depth,
                                 ncomp=ncomp or r.choice([1, 1, 2, 2, 3]),
                                 npar=npar or r.choice([1, 2, 2, 3, 3, 4]),
                                 nind=r.choice([0, 1, 1, 1, 2]) if nind is None else nind)
        if any(not (reach(defs, {v}) & set(pars)) for v in deps(defs)) and r.random() < .7:
            continue
        pb = Prob(g, defs, pars, inds, mode=mode or r.choice(['vec', 'vec', 'vec', 'mat', 'bc']), ysame=ysame)
        if pb.ok:
            return pb
    return None


# --------------------------------------------------------------------- binding
def sc_bind(g):
    """C11, C12: how data reach the variables"""
    r = g.r
    pb = problem(g, nind=r.choice([0, 1, 2, 2, 3]), funcs=False)
    if not pb:
        return None
    P, ev = declare(g, pb, fix=.1, bound=.1)
    kind = r.choice(['Model', 'Model', 'CallableModel', 'GradientModel'])
    inline = r.random() < .25
    if not inline:
        ev.append(model_ev('m', kind, pb.defs))
    ob = r.choice(['none', 'none', 'none', 'LeastSquares', 'LeastSquares', 'LogLikelihood', 'MinimizeModel'])
    if ob in ('LogLikelihood', 'MinimizeModel') and r.random() < .5:
        ob = 'none'
    dens = ob in ('LogLikelihood', 'MinimizeModel')
    kw = named(g, pb, drop=.2 if len(pb.deps) > 1 else 0)
    given = [k for k, _ in kw]
    extra, cons = [], []
    if r.random() < .2:
        z = g.names(1, pb.pars + pb.inds + [d['n'] for d in pb.defs])[0]
        ce = constraint(g, pb, extra=z, allow_dep=False)
        if ce:
            ce = dict(ce, lhs=add(ce['lhs'], s(z)))
            if g.ok(add(ce['lhs'], mul(c(-1), ce['rhs']))):
                cons, extra = [ce], [z]
                kw.append([z, g.array([r.choice([1, 2])], -2, 2) if r.random() < .5 else g.num(g.val(1, 3))])
    if dens:
        kw = [[k, v] for k, v in kw if k in pb.inds + extra or r.random() < .06]
    order = dorder(pb, extra)
    a, k = passing(g, order, kw)
    ch = r.random()
    if ch < .12 and (a or k):           # something missing
        (a if a and r.random() < .5 else k or a).pop()
    elif ch < .18:
        k = k + [[g.names(1, given + pb.pars + pb.deps)[0], g.num(1)]]
    elif ch < .23 and a:
        k = k + [[r.choice(order[:len(a)]), g.num(2)]]
    elif ch < .26:
        k = k + [[r.choice(pb.pars), g.num(2)]]
    e = fit_ev('f', m=None if inline else 'm', defs=pb.defs, args=a, kw=k, objective=ob, cons=cons,
               abs=r.choice(['none', 'none', 'none', 'true', 'false']))
    ev.append(e)
    ev.append({'op': 'fitobs', 'f': 'f'})
    if r.random() < .5:
        x = point_of(pb, P)
        if x:
            ev.append(exec_ev('f', 'r', script=[{'x': x}]))
            ev.append({'op': 'fitobs', 'f': 'f'})
    return ev


# ------------------------------------------------------------------- objectives
def positive_defs(g, defs):
    """make all dependent components positive (densities)"""
    dn = deps(defs)
    return [dict(d, e=add(c(1), pw(d['e'], 2))) if d['n'] in dn and g.r.random() < .7
            else dict(d, e=fn('exp', d['e'])) if d['n'] in dn else d for d in defs]


def obj_problem(g, cls, run=False):
    r = g.r
    for _ in range(40):
        if cls == 'VectorLeastSquares':
            # one number of data points for all components
            pb = problem(g, mode=r.choice(['vec', 'vec', 'mat']), nind=r.choice([1, 1, 2]), ysame=True)
            if pb and len({tuple(d['sh']) for d in pb.dat.values()}) > 1:
                continue
        elif cls == 'MinimizeModel':
            pb = problem(g, ncomp=r.choice([1, 1, 2, 3]), nind=0 if run else r.choice([0, 0, 0, 1]))
            if pb and len(pb.deps) > 1:
                continue
        elif cls == 'LogLikelihood':
            pb = problem(g, depth=1)
            if pb:
                defs = positive_defs(g, pb.defs)
                if any(not g.ok(d['e']) for d in defs):
                    continue
                pb = Prob(g, defs, pb.pars, pb.inds, mode='vec')
        else:
            pb = problem(g)
        if pb and pb.ok:
            return pb
    return None


def obj_events(g, pb, P, f, cls, kind, n=3):
    r, ev = g.r, []
    what = ['val', 'val']
    if kind != 'CallableModel' or cls == 'MinimizeModel':
        what += ['jac', 'jac']
    if (kind in ('Model', 'HessianModel') and cls != 'VectorLeastSquares') or cls == 'MinimizeModel':
        what += ['hess', 'hess']
    if cls == 'LeastSquares':
        what += ['comp']
    for w in [r.choice(what) for _ in range(n)]:
        x = point_of(pb, P)
        if x is None:
            continue
        fr = free(pb, P)
        e = {'op': 'obj', 'f': f, 'what': w}
        st = r.random()
        if st < .6:
            e.update(at=[str(v) for v in x], kw=[], style='pos')
        elif st < .8:
            kw = [[p, str(v)] for p, v in zip(fr, x)]
            r.shuffle(kw)
            e.update(at=[], kw=kw, style='kw')
        else:
            k = r.randint(0, len(x))
            e.update(at=[str(v) for v in x[:k]], kw=[[p, str(v)] for p, v in list(zip(fr, x))[k:]], style='mixed')
        ev.append(e)
        if r.random() < .35:
            m = mutate(g, pb, P, r.choice(['fixed', 'value']))
            if m is None:
                return ev
            ev += m
    return ev


def sc_obj(g, cls):
    """C13-C16, C17: values and derivatives of objectives"""
    r = g.r
    pb = obj_problem(g, cls)
    if not pb:
        return None
    P, ev = declare(g, pb, bound=.05)
    kind = r.choice(['Model', 'Model', 'Model', 'GradientModel', 'CallableModel', 'HessianModel'])
    ev.append(model_ev('m', kind, pb.defs))
    neg = r.random() < .15 and cls == 'MinimizeModel'
    if neg:
        ev.append({'op': 'neg', 'm': 'm', 'id': 'n'})
    mid = 'n' if neg else 'm'
    dens = cls in ('LogLikelihood', 'MinimizeModel')
    if r.random() < .3:
        data = [[n, d] for n, d in pb.ind.items()]
        if not dens:
            for v in pb.deps:
                data.append([v, pb.dat[v]])
                data.append(['sigma_' + v, pb.sigma(v, 'arr')])
        ev.append({'op': 'mkobj', 'id': 'o', 'm': mid, 'cls': cls, 'data': data})
        ev += obj_events(g, pb, P, 'o', cls, kind, 4)
        return ev
    kw = [[n, d] for n, d in pb.ind.items()] if dens else named(g, pb, drop=.2 if len(pb.deps) > 1 else 0)
    ev.append(fit_ev('f', m=mid, kw=kw, objective=cls))
    ev += obj_events(g, pb, P, 'f', cls, kind, 4)
    return ev


def sc_mmrefuse(g):
    """models with several dependent components cannot be minimised directly"""
    pb = problem(g, ncomp=3, nind=0)
    if not pb or len(pb.deps) < 2:
        return None
    P, ev = declare(g, pb)
    ev.append(model_ev('m', 'Model', pb.defs))
    if g.r.random() < .5:
        ev.append(fit_ev('f', m='m', objective='MinimizeModel'))
    else:
        ev.append({'op': 'mkobj', 'id': 'o', 'm': 'm', 'cls': 'MinimizeModel', 'data': []})
    return ev


# ------------------------------------------------- scripted runs of the minimisers
def options(g, z):
    """options for one minimiser"""
    r = g.r
    o = {}
    if z in ('BFGS', 'SLSQP', 'COBYLA', 'LBFGSB', 'NelderMead', 'Powell', 'TrustConstr'):
        if r.random() < .5:
            o['tol'] = {'num': r.choice(['1/1000', '1/1000000', '1/128'])}
        if r.random() < .4:
            o['options'] = {'maxiter': {'int': r.choice([7, 50, 200])}}
            if r.random() < .3:
                o['options']['disp'] = False
    elif z == 'DifferentialEvolution':
        for k, v in [('seed', {'int': r.choice([0, 3, 17])}), ('tol', {'num': '1/100'}), ('maxiter', {'int': 9}),
                     ('popsize', {'int': 5}), ('strategy', 'best1bin'), ('polish', True),
                     ('recombination', {'num': '1/2'}), ('mutation', {'num': '1/2'})]:
            if r.random() < .35:
                o[k] = v
    elif z == 'BasinHopping':
        for k, v in [('niter', {'int': 4}), ('T', {'num': '3/2'}), ('stepsize', {'num': '1/4'}), ('seed', {'int': 5})]:
            if r.random() < .4:
                o[k] = v
        if r.random() < .5:
            mk = {}
            if r.random() < .4:
                mk['method'] = r.choice(['BFGS', 'Nelder-Mead', 'L-BFGS-B'])
            if r.random() < .3:
                mk['tol'] = {'num': '1/1000'}
            if r.random() < .3:
                mk['options'] = {'maxiter': {'int': 11}}
            o['minimizer_kwargs'] = mk
    elif z == 'MINPACK':
        for k, v in [('ftol', {'num': '1/1000000'}), ('max_nfev', {'int': 30}), ('x_scale', {'num': '2'})]:
            if r.random() < .4:
                o[k] = v
    return o


def chain_names(mz):
    out = []
    for i, z in enumerate(mz):
        k = mz[:i + 1].count(z)
        out.append(z if k == 1 else '%s_%d' % (z, k))
    return out


def scripted(g, pb, P, f, rid, mz, chain, auto, opts=True, nprobe=1):
    r = g.r
    n = len(mz) if mz else 1
    scr = []
    for i in range(n):
        x = point_of(pb, P)
        if x is None:
            return None
        scr.append({'x': x, 'nit': r.choice([1, 2, 5, 9]), 'nfev': 4, 'message': r.choice(['ok', 'stopped early', 'done'])})
    probes = []
    for _ in range(nprobe):
        x = point_of(pb, P)
        if x:
            probes.append(x)
    o = {}
    if opts and r.random() < .6:
        if chain:
            nm = chain_names(mz)
            for name, z in zip(nm, mz):
                if r.random() < .6:
                    o[name] = options(g, z)
            if r.random() < .12:
                o[r.choice(['Newton', 'BFGS_9', 'SLSQP', 'tol', mz[0] + '_1', mz[0] + '_%d' % (mz.count(mz[0]) + 1)])] = {}
        else:
            o = options(g, mz[0] if mz else auto)
    return exec_ev(f, rid, probes=probes, script=scr, opts=o)


def pick_mz(g, cls, bounded, style=None):
    """(names, chain) of an explicit choice of minimiser"""
    r = g.r
    style = style or r.choice(['auto', 'auto', 'local', 'local', 'local', 'global', 'chain', 'chain'])
    if cls == 'VectorLeastSquares':
        return ['MINPACK'], False
    if style == 'auto':
        return [], False
    if style == 'local':
        return [r.choice(LOCAL)], False
    if style == 'global':
        return [r.choice(['BasinHopping', 'DifferentialEvolution'])], False
    pool = LOCAL + ['BasinHopping', 'DifferentialEvolution']
    k = r.choice([1, 2, 2, 3, 3, 4])
    mz = [r.choice(pool) for _ in range(k)]
    if r.random() < .4 and k > 1:
        mz[-1] = mz[0]
    return mz, True


def fit_case(g, style=None, cls=None, cons=.3, bound=.4, fix=.35, runs=2, nprobe=1, opts=True, mut=.6, lim=60,
             multi=.2, direct_obj=.1):
    """a session: parameters, model, one or more fits, scripted executions with changes in between"""
    r = g.r
    cls = cls or r.choice(['LeastSquares'] * 5 + ['LogLikelihood', 'MinimizeModel', 'MinimizeModel', 'VectorLeastSquares'])
    pb = obj_problem(g, cls, True)
    if not pb:
        return None
    P, ev = declare(g, pb, fix=fix, bound=bound)
    kind = r.choice(['Model', 'Model', 'Model', 'GradientModel', 'CallableModel', 'HessianModel'])
    ev.append(model_ev('m', kind, pb.defs))
    dens = cls in ('LogLikelihood', 'MinimizeModel')
    fits = []
    for i in range(2 if r.random() < multi else 1):
        mz, chain = pick_mz(g, cls, True, style)
        cl, k = [], 0
        if r.random() < cons:
            for j in range(r.choice([1, 1, 2, 3])):
                ce = constraint(g, pb)
                if ce:
                    if r.random() < .2:
                        cid = 'c%d%d' % (i, j)
                        ev.append(dict(ce, op='con', m='m', id=cid, form='rel'))
                        cl.append({'id': cid})
                    else:
                        cl.append(ce)
        kw = [[n, d] for n, d in pb.ind.items()] if dens else named(g, pb, drop=.15 if len(pb.deps) > 1 else 0)
        if cls == 'VectorLeastSquares':
            ob = r.choice(['none', cls])
        elif cls == 'MinimizeModel':
            ob = 'none' if not pb.inds and len(pb.defs) == 1 and r.random() < .5 else cls
        elif cls == 'LogLikelihood':
            ob = cls
        else:
            ob = r.choice(['none', 'none', 'none', cls])
        extra = {}
        fid = 'f%d' % i
        if ob == 'LeastSquares' and r.random() < direct_obj:
            data = [[n, d] for n, d in pb.ind.items()]
            for v in pb.deps:
                data += [[v, pb.dat[v]], ['sigma_' + v, pb.sigma(v, 'arr')]]
            ev.append({'op': 'mkobj', 'id': 'o%d' % i, 'm': 'm', 'cls': cls, 'data': data})
            kw = data
            ob, extra = 'instance', {'oid': 'o%d' % i}
        ev.append(fit_ev(fid, m='m', kw=kw, mz=mz, chain=chain, objective=ob, cons=cl,
                         abs=r.choice(['none', 'none', 'none', 'true', 'false']), **extra))
        auto = 'SLSQP' if cl else 'LBFGSB' if any(a['min'] is not None or a['max'] is not None or a['fixed']
                                                  for a in P.values()) else 'BFGS'
        fits.append((fid, mz, chain, auto))
    res = []
    for k in range(runs):
        fid, mz, chain, auto = r.choice(fits)
        if k or r.random() < .3:
            while r.random() < mut:
                m = mutate(g, pb, P)
                if m is None:
                    return ev
                ev += m
        x = scripted(g, pb, P, fid, 'r%d' % k, mz, chain, auto, opts, nprobe)
        if x is None:
            break
        ev.append(x)
        res.append('r%d' % k)
        if r.random() < .25:
            ev += obj_events(g, pb, P, fid, cls, kind, 1)
    if res and r.random() < .7:
        m = mutate(g, pb, P)
        if m:
            ev += m
        ev.append({'op': 'res', 'r': r.choice(res)})
    if r.random() < .3:
        ev.append({'op': 'psnap'})
    return ev


def sc_callobj(g):
    """plain callables as objective of Fit or of a minimiser used directly"""
    r = g.r
    pb = problem(g, ncomp=1, nind=0, funcs=False, npar=r.choice([1, 2, 3]))
    if not pb:
        return None
    e = pb.defs[0]['e']
    if syms(e) != set(pb.pars):
        return None
    P, ev = declare(g, pb, fix=.3, bound=.3)
    if r.random() < .5:
        ev.append(model_ev('m', r.choice(['Model', 'CallableModel']), pb.defs))
        mz = r.choice([[], ['NelderMead'], ['BFGS'], ['LBFGSB'], ['Powell'], ['COBYLA'], ['SLSQP'], ['DifferentialEvolution']])
        e2 = add(pw(e, 2), mul(c(3), s(pb.pars[0])))
        if not g.ok(e2):
            return None
        kw = [[v, pb.dat[v]] for v in pb.deps]
        ev.append(fit_ev('f', m='m', mz=mz, objective='callable', cexpr=e2, cnames=pb.pars, kw=kw))
        auto = 'LBFGSB' if any(a['min'] is not None or a['max'] is not None or a['fixed'] for a in P.values()) else 'BFGS'
        fid = 'f'
    else:
        ev.append(mini_ev(g, pb, 'f', e))
        mz, auto, fid = [ev[-1]['cls']], '', 'f'
    for k in range(2):
        x = scripted(g, pb, P, fid, 'r%d' % k, mz, False, auto, True, 1)
        if x is None:
            break
        ev.append(x)
        m = mutate(g, pb, P, r.choice(['fixed', 'value', 'min', 'max']))
        if m is None:
            break
        ev += m
        if r.random() < .5:
            ev.append({'op': 'res', 'r': 'r%d' % k})
    return ev


def gradient(e, pars):
    """expression tree of the partial derivatives by finite use of the product rule"""
    def d(x, n):
        o = x['o']
        if o == 'c':
            return c(0)
        if o == 's':
            return c(1 if x['n'] == n else 0)
        if o == '+':
            return add(*[d(t, n) for t in x['a']])
        if o == '*':
            return add(*[mul(*[d(t, n) if j == i else t for j, t in enumerate(x['a'])]) for i in range(len(x['a']))])
        if o == '^':
            return mul(c(x['k']), pw(x['b'], x['k'] - 1) if x['k'] != 1 else c(1), d(x['b'], n))
        raise ValueError
    return [d(e, n) for n in pars]


def mini_ev(g, pb, fid, e, tags=()):
    r = g.r
    cls = r.choice(['BFGS', 'LBFGSB', 'NelderMead', 'Powell', 'SLSQP', 'COBYLA', 'DifferentialEvolution',
                    'BasinHopping', 'BasinHopping'])
    jac = cls in ('BFGS', 'LBFGSB', 'SLSQP') and r.random() < .4
    x = {'op': 'mini', 'id': fid, 'cls': cls, 'params': pb.pars, 'cexpr': e, 'cnames': pb.pars, 'jac': jac,
         'local': r.choice(['BFGS', 'LBFGSB', 'NelderMead', 'SLSQP']) if cls == 'BasinHopping' else 'BFGS'}
    if jac:
        x['cgrad'] = gradient(e, pb.pars)
    return x


# ------------------------------------------------------------------- real runs
def linear_defs(g, inds, pars, ncomp, share=True):
    """components linear in the parameters"""
    r = g.r
    names = g.names(ncomp, list(inds) + list(pars))
    defs, left = [], list(pars)
    r.shuffle(left)
    for i, n in enumerate(names):
        own = left[i::ncomp]
        if share and r.random() < .5:
            own = list(set(own) | {r.choice(pars)})
        if not own:
            own = [r.choice(pars)]
        terms = []
        for j, p in enumerate(sorted(own)):
            ch = r.random()
            x = s(r.choice(inds)) if inds else c(1)
            basis = [c(1), x, pw(x, 2), mul(c(Fr(1, 2)), x), add(x, c(-1))]
            if r.random() < .2:
                basis.append(fn(r.choice(['sin', 'cos', 'exp']), mul(c(Fr(1, 2)), x)) if inds else c(2))
            terms.append(mul(s(p), r.choice(basis)))
        if r.random() < .3:
            terms.append(mul(g.const(), s(r.choice(inds))) if inds else g.const())
        r.shuffle(terms)
        defs.append({'n': n, 'e': add(*terms)})
    r.shuffle(defs)
    return defs


def hess_cond(pb, P, sig):
    """condition number of the normal matrix in the free parameters"""
    fr = free(pb, P)
    H = np.zeros((len(fr), len(fr)))
    base = {p: 0.0 if not P[p]['fixed'] else float(P[p]['value']) for p in pb.pars}
    e0 = evalall(pb.defs, pb.env(base))
    cols = []
    for p in fr:
        e1 = evalall(pb.defs, pb.env(dict(base, **{p: 1.0})))
        col = []
        for v in pb.deps:
            if v not in sig:
                continue
            sh = pb.dat[v]['sh']
            a = np.broadcast_to(np.atleast_1d(e1[v] - e0[v]), sh) / sig[v]
            col.append(a.ravel())
        cols.append(np.concatenate(col))
    A = np.array(cols).T
    H = A.T @ A
    return np.linalg.cond(H) if len(fr) else np.inf


def sc_linfit(g, mzs=None, cons=.2, bound=.35, fix=.2):
    """C20: exact optimum of linear problems by every minimiser"""
    r = g.r
    for _ in range(60):
        npar = r.choice([1, 2, 2, 3])
        nind = r.choice([0, 1, 1, 1, 2])
        nm = g.names(npar + nind)
        pars, inds = nm[:npar], nm[npar:]
        ncomp = r.choice([1, 1, 2, 3]) if npar > 1 else 1
        defs = linear_defs(g, inds, pars, ncomp)
        if any(not g.ok(d['e']) for d in defs) or {x for d in defs for x in syms(d['e'])} != set(pars + inds):
            continue
        pb = Prob(g, defs, pars, inds, mode='vec', ysame=True)
        if not pb.ok:
            continue
        for v in pb.deps:       # noisy data
            pb.dat[v] = dict(pb.dat[v], d=[str(Fr(t) + g.val(-2, 2) + Fr(1, 8)) for t in pb.dat[v]['d']])
        P, ev = declare(g, pb, fix=fix, bound=bound)
        z = r.choice(mzs or ['', '', 'BFGS', 'SLSQP', 'LBFGSB', 'MINPACK', 'MINPACK', 'NelderMead', 'Powell', 'COBYLA',
                             'TrustConstr', 'BasinHopping', 'DifferentialEvolution', 'chain'])
        cl = []
        if r.random() < cons and z in ('', 'SLSQP', 'COBYLA', 'TrustConstr', 'chain') and npar > 1:
            ce = constraint(g, pb, lin=True)
            if ce and set(free(pb, P)) & (syms(ce['lhs']) | syms(ce['rhs'])):
                if z == 'COBYLA' and ce['rel'] == 'eq':
                    ce['rel'] = 'ge'        # scipy's COBYLA knows inequalities only
                cl = [ce]
        if z == 'DifferentialEvolution':
            for p in pars:
                a = P[p]
                a['min'], a['max'] = a['value'] - r.choice([1, 3]), a['value'] + r.choice([2, 3])
        if z == 'MINPACK':
            # least_squares wants a strictly feasible start
            for p in pars:
                a = P[p]
                if a['min'] is not None:
                    a['min'] = min(a['min'], a['value'] - Fr(1, 4))
                if a['max'] is not None:
                    a['max'] = max(a['max'], a['value'] + Fr(1, 4))
        ev = [param(p, a['value'], 'none' if a['min'] is None else a['min'], 'none' if a['max'] is None else a['max'],
                    'true' if a['fixed'] else 'false') for p, a in P.items()]
        r.shuffle(ev)
        sig, kw = {}, [[n, d] for n, d in pb.ind.items()]
        how = r.choice(['none', 'num', 'arr', 'mix'])
        for v in pb.deps:
            kw.append([v, pb.form(pb.dat[v])])
            s_ = pb.sigma(v, how if how != 'mix' else None)
            sig[v] = 1.0
            if s_:
                sig[v] = np.broadcast_to(fl(s_), pb.dat[v]['sh'])
                kw.append(['sigma_' + v, pb.form(s_)])
        if z == 'MINPACK' and len({tuple(pb.dat[v]['sh']) for v in pb.deps}) > 1:
            continue
        if hess_cond(pb, P, sig) < (30 if z in ('COBYLA', 'TrustConstr', 'NelderMead', 'Powell', 'DifferentialEvolution') else 300):
            break
    else:
        return None
    kind = r.choice(['Model', 'Model', 'Model', 'GradientModel', 'CallableModel'])
    if kind == 'CallableModel' and z in ('TrustConstr', 'MINPACK'):
        kind = 'Model'
    a, k = passing(g, dorder(pb), kw)
    inline = r.random() < .4 and kind == 'Model'
    if not inline:
        ev.append(model_ev('m', kind, pb.defs))
    seed, opts, mz, chain = 'none', {}, [z] if z else [], False
    if z == 'chain':
        mz = r.choice([['NelderMead', 'BFGS'], ['BFGS', 'BFGS'], ['Powell', 'LBFGSB'], ['LBFGSB', 'SLSQP'],
                       ['NelderMead', 'NelderMead', 'SLSQP'], ['BFGS', 'TrustConstr'], ['BasinHopping', 'LBFGSB']])
        chain = True
        if kind == 'CallableModel':
            mz = [x if x != 'TrustConstr' else 'SLSQP' for x in mz]
        if 'BasinHopping' in mz:
            opts, seed = {'BasinHopping': {'niter': {'int': 2}}}, '7'
    elif z == 'BasinHopping':
        opts, seed = {'niter': {'int': 3}}, '3'
    elif z == 'DifferentialEvolution':
        opts = {'seed': {'int': 4}, 'tol': {'num': '1/1000000000'}, 'maxiter': {'int': 300}, 'popsize': {'int': 10}}
    elif z == 'COBYLA':
        opts = {'options': {'maxiter': {'int': 4000}}}
    elif z == 'NelderMead':
        opts = {'options': {'maxiter': {'int': 4000}, 'maxfev': {'int': 8000}}}
    elif z == 'TrustConstr':
        opts = {'options': {'maxiter': {'int': 3000}}}
    elif z == 'MINPACK':
        opts = dict(TIGHT)
    ev.append(fit_ev('f', m=None if inline else 'm', defs=pb.defs, args=a, kw=k, mz=mz, chain=chain, cons=cl,
                     objective='LeastSquares' if not pb.inds and len(pb.defs) == 1 and z != 'MINPACK' else 'none',
                     abs=r.choice(['none', 'none', 'true', 'false'])))
    ev.append(exec_ev('f', 'r', opts=opts, seed=seed, expect='linear'))
    if r.random() < .35:
        if r.random() < .6:
            for p in pb.pars:
                if r.random() < .5 and z not in ('MINPACK', 'DifferentialEvolution'):
                    a = P[p]
                    a['value'] += g.val(-1, 1)
                    if not a['fixed']:
                        ev.append(setp(p, 'value', str(a['value'])))
        ev.append(exec_ev('f', 'r2', opts=opts, seed=seed, expect='linear'))
        ev.append({'op': 'res', 'r': 'r'})
    return ev


def nl_model(g):
    """smooth nonlinear models with a well behaved neighbourhood: defs, pars, inds, values"""
    r = g.r
    a, b, d, x, y = g.names(5)
    ch = r.randrange(6)
    X = s(x)
    if ch == 0:
        return [{'n': y, 'e': mul(s(a), fn('exp', mul(c(-1), s(b), X)))}], {a: Fr(3), b: Fr(1, 2)}, x
    if ch == 1:
        return [{'n': y, 'e': mul(s(a), pw(add(c(1), mul(s(b), X)), -1))}], {a: Fr(4), b: Fr(1, 2)}, x
    if ch == 2:
        return [{'n': y, 'e': add(mul(s(a), fn('sin', mul(s(b), X))), s(d))}], {a: Fr(2), b: Fr(1), d: Fr(1)}, x
    if ch == 3:
        return [{'n': y, 'e': mul(s(a), fn('exp', mul(c(Fr(-1, 2)), pw(add(X, mul(c(-1), s(b))), 2))))}], \
            {a: Fr(3), b: Fr(3, 2)}, x
    if ch == 4:
        t = g.names(1, [a, b, d, x, y])[0]
        return [{'n': t, 'e': mul(s(a), X)}, {'n': y, 'e': mul(s(b), fn('log', add(c(1), pw(s(t), 2))))}], \
            {a: Fr(1), b: Fr(2)}, x
    return [{'n': y, 'e': mul(s(a), fn('sqrt', add(c(1), mul(pw(s(b), 2), X))))}], {a: Fr(2), b: Fr(1)}, x


def sc_nlfit(g):
    """C20: stationarity and descent of smooth nonlinear fits"""
    r = g.r
    cls = r.choice(['LeastSquares', 'LeastSquares', 'LeastSquares', 'MinimizeModel', 'LogLikelihood'])
    bound = .25
    if cls == 'MinimizeModel':
        n = r.choice([1, 2, 3])
        pars = g.names(n)
        y = g.names(1, pars)[0]
        terms = []
        for i, p in enumerate(pars):
            terms.append(pw(add(s(p), g.const()), 2))
            if i:
                terms.append(mul(c(Fr(1, 2)), pw(add(s(p), mul(c(-1), s(pars[i - 1]))), 2)))
        terms.append(pw(add(s(pars[0]), c(Fr(1, 4))), 4))
        defs, truth, inds = [{'n': y, 'e': add(*terms)}], {p: g.val(-1, 1) for p in pars}, []
    elif cls == 'LogLikelihood':
        b, x, y = g.names(3)
        defs = [{'n': y, 'e': mul(pw(s(b), -1), fn('exp', mul(c(-1), s(x), pw(s(b), -1))))}]
        truth, inds = {b: Fr(2)}, [x]
    else:
        defs, truth, x = nl_model(g)
        inds = [x]
    if any(not g.ok(d['e']) for d in defs):
        return None
    pars = sorted(truth)
    n = r.choice([5, 6, 8])
    ind = {i: {'k': 'arr', 'sh': [n], 'd': [str(Fr(r.randint(1, 16), 4)) for _ in range(n)]} for i in inds}
    pb = Prob.__new__(Prob)
    pb.g, pb.defs, pb.pars, pb.inds, pb.deps = g, defs, pars, sorted(inds), deps(defs)
    pb.ind, pb.p0, pb.sig = ind, truth, {}
    ev0 = evalall(defs, pb.env(truth))
    pb.dat = {}
    if inds and cls == 'LeastSquares':
        for v in pb.deps:
            vals = np.broadcast_to(np.atleast_1d(ev0[v]), (n,))
            pb.dat[v] = {'k': 'arr', 'sh': [n], 'd': [str(Fr(round(float(t) * 64), 64) + Fr(r.randint(-6, 6), 64)) for t in vals]}
    pb.p0 = {p: t + Fr(r.randint(-2, 2), 16) for p, t in truth.items()}
    P, ev = declare(g, pb, fix=.15, bound=bound)
    kind = r.choice(['Model', 'Model', 'GradientModel'])
    ev.append(model_ev('m', kind, defs))
    z = r.choice(['', '', 'BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK', 'NelderMead', 'Powell', 'chain', 'BasinHopping'])
    if z == 'MINPACK':
        if cls != 'LeastSquares':
            z = ''
        else:
            if any((a['min'] is not None and a['min'] >= a['value']) or (a['max'] is not None and a['max'] <= a['value'])
                   for a in P.values()):
                z = ''
    seed, opts, mz, chain = 'none', {}, [z] if z else [], False
    if z == 'chain':
        mz, chain = ['NelderMead', 'BFGS'], True
    if z == 'BasinHopping':
        opts, seed = {'niter': {'int': 2}, 'stepsize': {'num': '1/16'}}, '5'
    if z == 'MINPACK':
        opts = dict(TIGHT)
    kw = [[k, d] for k, d in ind.items()]
    for v in pb.dat:
        kw.append([v, pb.dat[v]])
        s_ = pb.sigma(v)
        if s_:
            kw.append(['sigma_' + v, s_])
    ev.append(fit_ev('f', m='m', kw=kw, mz=mz, chain=chain,
                     objective=cls if cls != 'LeastSquares' or (z == 'chain') else 'none'))
    ev.append(exec_ev('f', 'r', opts=opts, seed=seed, expect='stationary'))
    if r.random() < .5:
        ev.append(exec_ev('f', 'r2', opts=opts, seed=seed, expect='stationary'))
        ev.append({'op': 'res', 'r': 'r'})
    return ev
