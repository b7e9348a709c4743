"""Scenarios over models with matrix-valued components (C34)."""
from genbase import *
from enc import mt
from gen_sym import args, order_of, decl, model_ev
from gen_fit import declare, named, passing, fit_ev, exec_ev, point_of, dorder, free, mutate


def matf(e, env):
    """float value of a matrix expression (size filter only)"""
    o = e['o']
    if o == 'c':
        return float(Fr(e['v']))
    if o == 's':
        return env[e['n']]
    if o == '+':
        r = matf(e['a'][0], env)
        for x in e['a'][1:]:
            r = r + matf(x, env)
        return r
    if o == '*':
        r = 1.0
        for x in e['a']:
            y = matf(x, env)
            r = r * y if np.ndim(r) < 2 or np.ndim(y) < 2 or elt(e) else r @ y
        return r
    if o == 'f':
        return getattr(np, e['f'])(matf(e['a'], env))
    if o == '^':
        return matf(e['b'], env) ** float(e['k'])
    a = [matf(x, env) for x in e['a']]
    f = e['f']
    if f == 'T':
        return a[0].T
    if f == 'inv' or f == 'mpow':
        k = e.get('k', -1)
        if k < 0 and not np.linalg.cond(a[0]) < 1e3:
            return a[0] * np.nan
        return np.linalg.matrix_power(a[0], k)
    if f == 'had':
        r = a[0]
        for x in a[1:]:
            r = r * x
        return r
    if f == 'hpow':
        return a[0] ** float(e['k'])
    if f == 'elem':
        return a[0][e['i'], e['j']]
    r = a[0]
    for x in a[1:]:
        r = r * x
    return r.sum()


def elt(e):
    return e['o'] == 'f' or e['o'] in '+*' and any(elt(x) for x in e['a']) or e['o'] == '^' and elt(e['b'])


def tops(e):
    yield e
    for x in e['a'] if isinstance(e.get('a'), list) else [e[k] for k in 'ab' if k in e]:
        yield from tops(x)


class Mat:
    """matrix symbols with shapes, and expressions of given shapes"""
    def __init__(self, g, funcs=True):
        self.g, self.funcs = g, funcs
        r = g.r
        self.n = r.choice([2, 2, 3])
        self.k = r.choice([1, 2, 3, 4])
        if self.k == self.n:
            self.k = 1
        nm = g.names(12)
        self.sym = r.random() < .6          # symbolic dimensions
        self.npar = r.choice([0, 1, 2, 2])
        self.pars = nm[:self.npar]
        self.cn = nm[3:6]
        self.sh = {}
        shapes = [(self.n, self.n)] * 2 + [(self.n, 1)] * 3 + [(self.k, self.n)]
        for x, s_ in zip(nm[6:], r.sample(shapes, r.choice([2, 3, 4]))):
            self.sh[x] = s_
        self.comp = {}
        self.used = set()

    def dim(self, d):
        return {self.n: 'dim_N', self.k: 'dim_K'}[d] if self.sym and d != 1 else d

    def scal(self):
        g, r = self.g, self.g.r
        ch = r.random()
        if ch < .35 or not self.pars:
            return g.const()
        p = s(r.choice(self.pars))
        if ch < .6:
            return p
        if ch < .75:
            return pw(p, -2)
        if ch < .85:
            return add(p, g.const())
        return mul(g.const(), p)

    def leaf(self, a, b):
        r = self.g.r
        xs = [x for x, s_ in {**self.sh, **self.comp}.items() if tuple(s_) == (a, b)]
        if xs and (r.random() < .9 or True):
            x = r.choice(xs)
            self.used.add(x)
            return s(x)
        xs = [x for x, s_ in {**self.sh, **self.comp}.items() if tuple(s_) == (b, a)]
        if xs:
            return mt('T', s(r.choice(xs)))
        return None

    def mat(self, a, b, depth):
        g, r = self.g, self.g.r
        ch = r.random()
        if depth == 0:
            return self.leaf(a, b)
        if ch < .25:
            xs = [self.mat(a, b, depth - 1) for _ in range(r.choice([2, 2, 3]))]
            if None in xs:
                return None
            return add(*[mul(self.scal(), x) if r.random() < .4 else x for x in xs])
        if ch < .4:
            x = self.mat(a, b, depth - 1)
            return x and mul(self.scal(), x)
        if ch < .55:
            m = r.choice([self.n, self.n, self.k, 1])
            x, y = self.mat(a, m, depth - 1), self.mat(m, b, depth - 1)
            return mul(x, y) if x and y else self.leaf(a, b)
        if ch < .62:
            x = self.mat(b, a, depth - 1)
            return x and mt('T', x)
        if ch < .82:
            xs = [self.mat(a, b, depth - 1) for _ in range(r.choice([2, 2, 2, 3]))]
            return None if None in xs or a == b == 1 else mt('had', *xs)
        if ch < .91:
            x = self.mat(a, b, depth - 1)
            return x and (None if a == b == 1 else mt('hpow', x, k=r.choice([2, 2, 3, -1])))
        if a == b and a > 1:
            x = self.mat(a, b, depth - 1)
            if not x:
                return None
            return mt('inv', x) if r.random() < .6 else mt('mpow', x, k=r.choice([2, 3, -1]))
        return self.leaf(a, b)

    def component(self):
        """(expression, shape or None for a scalar)"""
        g, r = self.g, self.g.r
        shs = sorted(set(self.sh.values()))
        ch = r.random()
        depth = r.choice([1, 2, 2, 3])
        a, b = r.choice(shs + [(self.n, 1), (self.n, self.n)])
        if ch < .1:        # column sums
            k = r.choice([1, 2, 2, 3])
            xs = [self.leaf(self.n, 1) for _ in range(k)]
            if None in xs:
                return None
            if self.sym and r.random() < .2 and len({str(x) for x in xs}) < 1:
                return None
            e = mt('sum', *xs, dim=[self.dim(self.n)] if self.sym else [])
            if r.random() < .6:
                e = add(mul(self.scal(), e), self.scal())
            return e, None
        if ch < .18:
            x = self.leaf(a, b)
            if not x or x['o'] != 's':
                return None
            e = mt('elem', x, i=r.randrange(1 if self.sym else a), j=r.randrange(1 if self.sym else b))
            return mul(self.scal(), e), None
        if ch < .3:        # quadratic forms
            u, v = self.mat(self.n, 1, depth - 1), self.mat(self.n, 1, depth - 1)
            if not u or not v:
                return None
            if r.random() < .5:
                q_ = fn('sqrt', mul(mt('T', u), u))
                return (mul(self.scal(), q_) if r.random() < .4 else q_), (1, 1)
            return mul(mt('T', u), v), (1, 1)
        x = self.mat(a, b, depth)
        if x is None or x['o'] == 's':
            return None
        if ch < .5 and self.funcs:
            f = fn(r.choice(['exp', 'sin', 'cos', 'exp']), x)
            return (mul(self.scal(), f) if r.random() < .6 else f), (a, b)
        return x, (a, b)

    def build(self):
        g, r = self.g, self.g.r
        self.defs = []
        for i, n in enumerate(self.cn[:r.choice([1, 1, 2, 2, 3])]):
            x = self.component()
            if x is None:
                return False
            e, sh = x
            if sh is not None and elt(e) and r.random() < .5:
                pass
            self.defs.append({'n': n, 'e': e})
            if sh is not None and not (sh == (1, 1) and r.random() < .5):
                self.comp[n] = sh
        us = set().union(*[syms(d['e']) for d in self.defs])
        if not us - set(self.cn):
            return False
        self.sh = {x: s_ for x, s_ in self.sh.items() if x in us}
        self.pars = [p for p in self.pars if p in us]
        # what sympy makes of it has to contain everything
        sym = {}

        def look(n):
            if n not in sym:
                sh = self.sh.get(n) or self.comp.get(n)
                if n.startswith('dim_'):
                    sym[n] = sympy.Symbol(n, integer=True)
                elif sh:
                    sym[n] = sympy.MatrixSymbol(n, *[look(self.dim(d)) if isinstance(self.dim(d), str) else d for d in sh])
                else:
                    sym[n] = sympy.Symbol(n, real=True)
            return sym[n]
        for d in self.defs:
            try:
                x = to_sympy(d['e'], look)
            except (TypeError, ValueError, NotImplementedError, AttributeError, sympy.ShapeError):
                return False
            fs = {str(t) for t in x.free_symbols if str(t).isidentifier() and str(t) != 'i_'}
            if fs != syms(d['e']):
                return False
            if x.atoms(sympy.Identity, sympy.ZeroMatrix, sympy.matrices.expressions.special.OneMatrix):
                return False
            # powers which sympy leaves to the matrix product
        g.r.shuffle(self.defs)
        self.inds = sorted(set(self.sh) | {n for n in us if n.startswith('dim_')})
        return True

    def data(self):
        """values of the independent variables"""
        g, res = self.g, {}
        for n in self.inds:
            if n == 'dim_N':
                res[n] = {'k': 'num', 'v': str(self.n), 'sh': [], 'd': [str(self.n)], 'as': 'int'}
            elif n == 'dim_K':
                res[n] = {'k': 'num', 'v': str(self.k), 'sh': [], 'd': [str(self.k)], 'as': 'int'}
            else:
                res[n] = g.array(list(self.sh[n]), -3, 3)
        return res

    def fine(self, vals, lim=2e3):
        env = {n: fl(v) if not n.startswith('dim_') else int(v['v']) for n, v in vals.items()}
        env = {n: float(v) if np.ndim(v) == 0 and not n.startswith('dim_') else v for n, v in env.items()}
        todo = {d['n']: d['e'] for d in self.defs}
        with np.errstate(all='ignore'):
            while todo:
                n = next((n for n in todo if all(k in env for k in syms(todo[n]))), None)
                if n is None:
                    return False
                for x in tops(todo[n]):
                    try:
                        v = np.asarray(matf(x, env))
                    except (np.linalg.LinAlgError, ZeroDivisionError, OverflowError):
                        return False
                    if not np.all(np.isfinite(v)) or np.max(np.abs(v)) > lim:
                        return False
                    if x['o'] == 'f' and x['f'] == 'sqrt' and np.min(matf(x['a'], env)) < 1e-3:
                        return False
                env[n] = matf(todo.pop(n), env)
        self.env = env
        return True

    def point(self):
        for _ in range(30):
            vals = self.data()
            vals.update({p: self.g.num(self.g.val(-2, 2, nz=True)) for p in self.pars})
            if self.fine(vals):
                return vals
        return None

    def declare(self):
        ev = []
        for n in sorted({**self.sh, **self.comp}):
            if n in self.sh or any(d['n'] == n for d in self.defs):
                sh = self.sh.get(n) or self.comp[n]
                ev.append({'op': 'msym', 'n': n, 'sh': [self.dim(d) for d in sh]})
        self.g.r.shuffle(ev)
        return ev


def make(g, **kw):
    for _ in range(200):
        m = Mat(g, **kw)
        if m.build():
            v = m.point()
            if v:
                return m, v
    return None, None


def sc_matrix(g):
    """C34: values of matrix components; negated and restored models"""
    r = g.r
    m, vals = make(g)
    if not m:
        return None
    ev = decl(g, m.pars, fixed=True) + m.declare()
    ev.append(model_ev('m', 'Matrix', m.defs))
    order = m.inds + sorted(m.pars)
    for k in range(2):
        v = vals if k == 0 else m.point() or vals
        ev.append(dict(op='call', m='m', pick=r.random() < .3, **args(g, v, order)))
    if r.random() < .25:
        ev.append({'op': 'neg', 'm': 'm', 'id': 'n'})
        ev.append(dict(op='call', m='n', **args(g, vals, order)))
    if r.random() < .2:
        ev.append({'op': 'pickle', 'x': 'm', 'id': 'p', 'proto': r.choice([2, 4, 5])})
        ev.append(dict(op='call', m='p', **args(g, vals, order)))
    if r.random() < .2:
        bad = args(g, vals, order, r.choice(['pos', 'kw']))
        (bad['pos'] or bad['kw']).pop()
        ev.append(dict(op='call', m='m', **bad))
    if r.random() < .2:
        ev.append({'op': 'mobs', 'm': 'm'})
    return ev


def sumcon(g, m):
    """a relation over the sum of a column; (relation, new symbols)"""
    r = g.r
    cols = [n for n, sh in {**m.sh, **m.comp}.items() if tuple(sh) == (m.n, 1)]
    if not cols:
        return None
    n = r.choice([c_ for c_ in cols if c_ in m.comp] or cols)
    xs, new = [s(n)], []
    if r.random() < .5:
        o = r.choice(cols)
        if r.random() < .5:
            o = g.names(1, list(m.sh) + m.cn + m.pars)[0]
            new = [o]
        xs.append(s(o))
    e = mt('sum', *xs, dim=[m.dim(m.n)] if m.sym else [])
    if m.pars and r.random() < .4:
        e = add(e, mul(g.const(), s(r.choice(m.pars))))
    return {'rel': r.choice(['eq', 'ge', 'le']), 'lhs': e, 'rhs': c(g.val(-2, 2)), 'form': 'rel'}, new


def sc_matcon(g):
    """C34, C07: constraints over sums of matrix components"""
    r = g.r
    for _ in range(60):
        m, vals = make(g)
        k = m and sumcon(g, m)
        if k:
            break
    else:
        return None
    k, new = k
    ev = decl(g, m.pars, fixed=True) + m.declare()
    ev += [{'op': 'msym', 'n': n, 'sh': [m.dim(m.n), 1]} for n in new]
    ev.append(model_ev('m', 'Matrix', m.defs))
    ev.append(dict(k, op='con', m='m', id='c'))
    by = {d['n']: d['e'] for d in m.defs}
    need = syms(k['lhs'])
    while True:
        more = need | set().union(*[syms(by[n]) for n in need if n in by])
        if more == need:
            break
        need = more
    for _ in range(2):
        vals = m.point() or vals
        kw = [[n, v] for n, v in vals.items() if n in need or n in m.pars]
        kw += [[n, g.array([m.n, 1], -2, 2)] for n in new]
        if m.sym and 'dim_N' not in vals:
            kw.append(['dim_N', {'k': 'num', 'v': str(m.n), 'sh': [], 'd': [str(m.n)], 'as': 'int'}])
        ev.append({'op': 'concall', 'c': 'c', 'kw': sorted(kw, key=lambda t: t[0])})
    return ev


def mat_problem(g):
    """data around the values of a matrix model"""
    from gen_fit import Prob
    r = g.r
    m, vals = make(g)
    if not m or not m.pars:
        return None, None
    m.fine(vals)
    pb = Prob.__new__(Prob)
    pb.g, pb.defs, pb.pars, pb.inds = g, m.defs, sorted(m.pars), m.inds
    us = set().union(*[syms(d['e']) for d in m.defs])
    pb.deps = sorted(d['n'] for d in m.defs if d['n'] not in us)
    pb.ind = {n: vals[n] for n in m.inds}
    pb.p0 = {p: Fr(vals[p]['v']) for p in pb.pars}
    pb.dat, pb.sig = {}, {}
    for v in pb.deps:
        a = np.atleast_1d(m.env[v])
        pb.dat[v] = {'k': 'arr', 'sh': list(a.shape), 'd': [str(Fr(round(float(t) * 8), 8) + g.val(-1, 1)) for t in a.ravel()]}

    def small(pv, lim=None):
        return all(pv[p] != 0 for p in pb.pars) and m.fine({**pb.ind, **{p: g.num(pv[p]) for p in pb.pars}}, 300)

    def pick(tries=30, lo=-2, hi=2, base=None, spread=1):
        for _ in range(15):
            pv = {p: pb.p0[p] + g.val(-1, 1) * Fr(1, 4) for p in pb.pars}
            if small(pv):
                return pv
        return None
    pb.small, pb.pick = small, pick
    return m, pb


def sc_matfit(g):
    """C34: objectives and scripted fits of matrix models"""
    r = g.r
    for _ in range(40):
        m, pb = mat_problem(g)
        if m:
            break
    else:
        return None
    P, ev = declare(g, pb, fix=.2, bound=.2)
    ev += m.declare()
    ev.append(model_ev('m', 'Matrix', pb.defs))
    mid = 'm'
    if r.random() < .2:
        ev.append({'op': 'pickle', 'x': 'm', 'id': 'q', 'proto': 4})
        mid = 'q'
    kw = named(g, pb, drop=.2 if len(pb.deps) > 1 else 0)
    cons, mz = [], r.choice([[], [], ['NelderMead'], ['COBYLA'], ['SLSQP']])
    k = sumcon(g, m) if r.random() < .3 else None
    if k:
        k, new = k
        cons, mz = [k], r.choice([[], ['SLSQP']])
        ev[-1:-1] = [{'op': 'msym', 'n': n, 'sh': [m.dim(m.n), 1]} for n in new]
        kw += [[n, g.array([m.n, 1], -2, 2)] for n in new]
        if m.sym and 'dim_N' not in pb.ind:
            kw.append(['dim_N', {'k': 'num', 'v': str(m.n), 'sh': [], 'd': [str(m.n)], 'as': 'int'}])
    a, k = passing(g, dorder(pb), kw, style='kw' if cons else None)
    ev.append(fit_ev('f', m=mid, args=a, kw=k, mz=mz, tags=['C34'], cons=cons,
                     abs=r.choice(['none', 'none', 'true', 'false'])))
    for i in range(2):
        x, pr = point_of(pb, P), point_of(pb, P)
        if x is None or pr is None:
            break
        ev.append(exec_ev('f', 'r%d' % i, probes=[pr], script=[{'x': x, 'nit': 3, 'nfev': 4, 'message': 'ok'}]))
        mu = mutate(g, pb, P, r.choice(['fixed', 'value']))
        if mu is None:
            break
        ev += mu
    pr = point_of(pb, P)
    if pr:
        ev.append({'op': 'obj', 'f': 'f', 'what': r.choice(['val', 'comp']), 'at': [str(v) for v in pr],
                   'kw': [], 'style': 'pos'})
    return ev
