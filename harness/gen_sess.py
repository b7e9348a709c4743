"""Scenarios around models and fits: bulk and unnamed symbols (C28), cached
attributes (C30), library distributions (C32), text (C33), interactive guesses (C27)."""
from genbase import *
from gen_sym import graph, order_of, decl, model_ev, point, args, shapes, sc_con
import gen_fit as gf
import gen_ode as go


# ------------------------------------------------------------------ symbols (C28)
def bounds(r, bad=.15):
    ch = r.random()
    if ch < bad:
        lo = Fr(r.randint(-4, 4), 2)
        return str(lo), str(lo - Fr(r.randint(1, 5), 2))
    lo = Fr(r.randint(-6, 4), 2)
    hi = lo + Fr(r.randint(0, 6), 2)
    return (str(lo) if r.random() < .6 else 'none'), (str(hi) if r.random() < .6 else 'none')


def sc_symbols(g):
    r = g.r
    ev, made, seen = [], [], set()
    pars = []

    def fresh(k):
        nm = g.names(k, seen)
        seen.update(nm)
        return nm
    for _ in range(r.choice([4, 6, 8])):
        ch = r.random()
        if ch < .3:
            n = fresh(1)[0]
            lo, hi = bounds(r)
            e = {'op': 'param', 'n': n}
            if r.random() < .75:
                e['value'] = str(g.val(-3, 3))
                e['posvalue'] = r.random() < .3
            if r.random() < .7:
                e['min'] = lo
            if r.random() < .7:
                e['max'] = hi
            if r.random() < .5:
                e['fixed'] = r.choice(['true', 'false', 'true'])
            ev.append(e)
            bad = (e.get('min', 'none') != 'none' and e.get('max', 'none') != 'none'
                   and Fr(e['max']) < Fr(e['min']) and e.get('fixed') != 'true')
            if not bad:
                pars.append(n)
        elif ch < .65:
            k = r.choice([1, 2, 3, 3, 4])
            nm = fresh(k)
            text = r.choice([', ', ' ', ',']).join(nm)
            if k > 1 and r.random() < .12:
                base = r.choice(['zz', 'pq', 'W'])
                if base + '0' not in seen:
                    nm = [base + str(i) for i in range(k)]
                    seen.update(nm)
                    text = '%s:%d' % (base, k)
            scal, seqs = [], []
            wrong = r.random() < .15
            for a in ('value', 'min', 'max', 'fixed'):
                c2 = r.random()
                if c2 < .3:
                    continue
                if a == 'fixed':
                    val = lambda: r.choice(['true', 'false', 'false'])
                elif a == 'value':
                    val = lambda: str(g.val(-3, 3))
                else:
                    shift = 2 if a == 'max' else -2
                    val = lambda: ('none' if r.random() < .25 else str(g.val(-3, 3) + (shift if r.random() < .75 else 0)))
                if c2 < .6:
                    scal.append([a, val()])
                else:
                    n = k if not (wrong and r.random() < .6) else max(0, k + r.choice([-1, 1, 1, 2]))
                    seq = [val() for _ in range(n)]
                    form = r.choice(['list', 'list', 'tuple', 'iter', 'array'])
                    if n > k and form == 'iter':
                        form = 'list'
                    if form == 'array' and (a == 'fixed' or 'none' in seq):
                        form = 'list'
                    seqs.append([a, {'seq': seq, 'as': form}])
            ev.append({'op': 'params', 'names': text, 'list': nm, 'scal': scal, 'seqs': seqs})
            pars_ok = all(len(v['seq']) == k for _, v in seqs)
            if pars_ok:
                made.append(nm)
        elif ch < .8:
            nm = fresh(r.choice([1, 2, 3]))
            ev.append({'op': 'vars', 'names': r.choice([', ', ' ', ',']).join(nm), 'list': nm})
        else:
            e = {'op': 'anon', 'cls': r.choice(['Parameter', 'Parameter', 'Variable']), 'k': r.choice([1, 2, 3])}
            if e['cls'] == 'Parameter' and r.random() < .6:
                e['value'] = str(g.val(-3, 3))
            ev.append(e)
        if pars and r.random() < .4:
            n = r.choice(pars)
            a = r.choice(['value', 'value', 'min', 'max', 'fixed'])
            v = r.choice(['true', 'false']) if a == 'fixed' else str(g.val(-3, 3)) if a == 'value' else \
                r.choice(['none', '-7', '-9/2'] if a == 'min' else ['none', '8', '19/2'])
            ev.append(gf.setp(n, a, v))
            if r.random() < .4:
                ev.append({'op': 'getp', 'n': n})
        if len(pars) > 1 and r.random() < .3:
            x, y = r.choice(pars), r.choice(pars)
            ev.append({'op': 'peq', 'x': x, 'y': y})
    ev.append({'op': 'psnap'})
    for _ in range(r.choice([1, 2])):
        n = fresh(1)[0]
        a = {'value': str(g.val(-3, 3)), 'min': '-5', 'max': 'none', 'fixed': r.choice(['true', 'false'])}
        b = dict(a)
        k = r.random()
        if k < .5:
            q_ = r.choice(['value', 'min', 'max', 'fixed'])
            b[q_] = {'value': str(g.val(-3, 3)), 'min': r.choice(['none', '-6']), 'max': '9',
                     'fixed': 'true' if a['fixed'] == 'false' else 'false'}[q_]
        ev.append({'op': 'peqattr', 'n': n, 'm': n if r.random() < .8 else fresh(1)[0], 'a': a, 'b': b,
                   'cb': 'Variable' if r.random() < .15 else 'Parameter'})
    return ev


# ----------------------------------------------------------- cached attributes (C30)
def sc_cprop(g):
    r = g.r
    n = r.choice([1, 2, 3, 4])
    ev = []
    for _ in range(r.choice([8, 14, 25])):
        ev.append({'op': 'cprop', 'nobj': n, 'obj': r.randrange(n), 'attr': r.choice(['p', 'q', 'r', 'z']),
                   'do': r.choice(['get'] * 6 + ['del', 'del', 'set', 'fail', 'unfail', 'base'])})
    return ev


def sc_mcache(g):
    r = g.r
    while True:
        defs, pars, inds = graph(g, funcs=False, depth=1)
        vals = point(g, defs, pars, inds)
        if vals:
            break
    ev = decl(g, pars)
    kind = r.choice(['Model', 'CallableModel', 'GradientModel', 'HessianModel'])
    ev.append(model_ev('m', kind, defs))
    order = order_of(defs, pars)
    call = dict(op='call', m='m', **args(g, vals, order))
    if r.random() < .5:
        ev.append(call)
    ev.append({'op': 'mcache', 'm': 'm'})
    ev.append(dict(call))
    if kind in ('Model', 'GradientModel', 'HessianModel'):
        ev.append(dict(op='jac', m='m', **args(g, vals, order)))
    ev.append({'op': 'mobs', 'm': 'm'})
    return ev


# -------------------------------------------------------------- distributions (C32)
PI2 = '2.50662827463100050241576528481'


def minus(a, b):
    return add(a, mul(c(-1), b))


def gauss_tree(x, mu, sg):
    z = mul(minus(x, mu), pw(sg, -1))
    return mul(fn('exp', mul(c(Fr(-1, 2)), pw(z, 2))), pw(sg, -1), c(1 / Fr(PI2)))


def bi_tree(x, y, mx, my, sx, sy, rho):
    om = minus(c(1), pw(rho, 2))
    zx, zy = mul(minus(x, mx), pw(sx, -1)), mul(minus(y, my), pw(sy, -1))
    qd = add(pw(zx, 2), pw(zy, 2), mul(c(-2), rho, zx, zy))
    return mul(fn('exp', mul(c(Fr(-1, 2)), pw(om, -1), qd)), pw(mul(sx, sy, fn('sqrt', om)), -1), c(1 / Fr(PI2) ** 2))


def exp_tree(x, l):
    return mul(l, fn('exp', mul(c(-1), l, x)))


TREES = dict(Gaussian=gauss_tree, BivariateGaussian=bi_tree, Exp=exp_tree)


def dist_vals(g, name):
    r = g.r
    pos = lambda: Fr(r.randint(1, 16), r.choice([4, 4, 8]))
    if name == 'Gaussian':
        return [g.val(-4, 4), g.val(-3, 3), pos()]
    if name == 'BivariateGaussian':
        return [g.val(-3, 3), g.val(-3, 3), g.val(-2, 2), g.val(-2, 2), pos() + Fr(1, 4), pos() + Fr(1, 4), Fr(r.randint(-14, 14), 16)]
    return [Fr(r.randint(0, 24), 4), pos()]


def sc_dist(g):
    r = g.r
    ev = []
    for k in range(r.choice([2, 3])):
        name = r.choice(['Gaussian', 'BivariateGaussian', 'BivariateGaussian', 'Exp'])
        n = {'Gaussian': 3, 'BivariateGaussian': 7, 'Exp': 2}[name]
        nm = g.names(n)
        nx = {'Gaussian': 1, 'BivariateGaussian': 2, 'Exp': 1}[name]
        for p in nm[nx:]:
            if r.random() < .8:
                ev.append(param(p, 1))
        vals = dist_vals(g, name)
        if r.random() < .15 and name == 'BivariateGaussian':
            vals[6] = Fr(0)
        ev.append({'op': 'dist', 'name': name, 'args': nm, 'at': [[a, str(v)] for a, v in zip(nm, vals)],
                   'grad': r.sample(nm, min(n, r.choice([1, 2, 3])))})
        # the same symbols in the session again: declare new names next time
        if k == 0 and r.random() < .3:
            v2 = dist_vals(g, name)
            ev.append({'op': 'dist', 'name': name, 'args': nm, 'at': [[a, str(v)] for a, v in zip(nm, v2)], 'grad': []})
    # a symbol is a parameter or a variable in one session
    seen = {}
    for e in ev:
        for n in ([e['n']] if e['op'] == 'param' else e['args']):
            seen.setdefault(n, 0)
    return ev


def dist_problem(g):
    """a density model over data: (defs with the library's expressions, pars, inds, ok values)"""
    r = g.r
    name = r.choice(['Gaussian', 'Exp', 'BivariateGaussian', 'mixture', 'scaled'])
    nm = g.names(10)
    y, x, x2, a = nm[:4]
    p = nm[4:]
    if name == 'Gaussian':
        d = [{'n': y, 'dist': [['Gaussian', [x, p[0], p[1]]]], 'w': [], 'e': gauss_tree(s(x), s(p[0]), s(p[1]))}]
        return d, {p[0]: 'any', p[1]: 'pos'}, {x: 'any'}
    if name == 'Exp':
        d = [{'n': y, 'dist': [['Exp', [x, p[0]]]], 'w': [], 'e': exp_tree(s(x), s(p[0]))}]
        return d, {p[0]: 'pos'}, {x: 'pos'}
    if name == 'BivariateGaussian':
        d = [{'n': y, 'dist': [['BivariateGaussian', [x, x2] + p[:5]]], 'w': [],
              'e': bi_tree(s(x), s(x2), *[s(t) for t in p[:5]])}]
        return d, {p[0]: 'any', p[1]: 'any', p[2]: 'pos', p[3]: 'pos', p[4]: 'rho'}, {x: 'any', x2: 'any'}
    if name == 'mixture':
        d = [{'n': y, 'dist': [['Gaussian', [x, p[0], p[1]]], ['Gaussian', [x, p[2], p[1]]]], 'w': [a, p[3]],
              'e': add(mul(s(a), gauss_tree(s(x), s(p[0]), s(p[1]))), mul(s(p[3]), gauss_tree(s(x), s(p[2]), s(p[1]))))}]
        return d, {p[0]: 'any', p[1]: 'pos', p[2]: 'any', p[3]: 'pos', a: 'pos'}, {x: 'any'}
    d = [{'n': y, 'dist': [[('Exp'), [x, p[0]]]], 'w': [a], 'e': mul(s(a), exp_tree(s(x), s(p[0])))},
         {'n': x2, 'dist': [['Gaussian', [x, p[1], p[2]]]], 'w': [a], 'e': mul(s(a), gauss_tree(s(x), s(p[1]), s(p[2])))}]
    return d, {a: 'pos', p[0]: 'pos', p[1]: 'any', p[2]: 'pos'}, {x: 'pos'}


def some(g, k):
    r = g.r
    return (Fr(r.randint(-8, 8), 4) if k == 'any' else Fr(r.randint(4, 16), 8) if k == 'pos' else Fr(r.randint(-10, 10), 16))


def sc_distmodel(g):
    """the library densities inside models: values, derivatives, likelihood"""
    r = g.r
    defs, pars, inds = dist_problem(g)
    n = r.choice([1, 2, 3])
    at = lambda: dict([(x, {'k': 'arr', 'sh': [n], 'd': [str(some(g, k)) for _ in range(n)]}) for x, k in inds.items()] +
                      [(p, g.num(some(g, k))) for p, k in pars.items()])
    ev = [param(p, some(g, k), min='1/16' if k == 'pos' and r.random() < .5 else 'none') for p, k in pars.items()]
    r.shuffle(ev)
    kind = r.choice(['Model', 'Model', 'GradientModel'])
    ev.append(model_ev('m', kind, defs))
    order = sorted(inds) + sorted(pars)
    for op in r.sample(['call', 'jac'] + (['hess'] if kind == 'Model' and len(pars) < 5 else ['call']), 2):
        ev.append(dict(op=op, m='m', tags=['C32'], **args(g, at(), order)))
    if len(defs) == 1 and r.random() < .7:
        data = at()
        ev.append(gf.fit_ev('f', m='m', kw=[[x, data[x]] for x in inds], objective='LogLikelihood', tags=['C32']))
        for w in r.sample(['val', 'jac', 'val'], 2):
            ev.append({'op': 'obj', 'f': 'f', 'what': w, 'at': [str(some(g, pars[p])) for p in sorted(pars)], 'kw': [],
                       'style': 'pos'})
    return ev


# ------------------------------------------------------------------------ text (C33)
def at_all(g, names):
    return [[n, str(g.val(-3, 3, nz=True))] for n in sorted(names)]


def sc_mstr(g):
    r = g.r
    if r.random() < .2:
        o = go.make_ode(g)
        if not o:
            return None
        ev = [param(p, g.val(-2, 3)) for p in o.pars] + [o.event('m', {}, '1/1000')]
        ev.append({'op': 'mstr', 'm': 'm', 'at': at_all(g, set(o.pars) | set(o.vs) | {o.t})})
        if r.random() < .4:
            ev += [{'op': 'neg', 'm': 'm', 'id': 'n'},
                   {'op': 'mstr', 'm': 'n', 'at': at_all(g, set(o.pars) | set(o.vs) | {o.t})}]
        return ev
    defs, pars, inds = graph(g, ncomp=r.choice([1, 2, 3, 4]), depth=r.choice([1, 2]), funcs=r.random() < .5)
    ev = decl(g, pars, fixed=True)
    ev.append(model_ev('m', r.choice(['Model', 'CallableModel', 'GradientModel', 'HessianModel']), defs))
    al = set(pars) | set(inds) | {d['n'] for d in defs}
    ev.append({'op': 'mstr', 'm': 'm', 'at': at_all(g, al)})
    if r.random() < .3:
        ev += [{'op': 'neg', 'm': 'm', 'id': 'n'}, {'op': 'mstr', 'm': 'n', 'at': at_all(g, al)}]
    if r.random() < .3:
        ce = None
        for _ in range(20):
            sy = r.sample(pars, min(len(pars), r.choice([1, 2])))
            lhs = g.expr(sy, depth=1, funcs=False, need=sy)
            if g.ok(lhs):
                ce = {'rel': r.choice(['eq', 'ge', 'le']), 'lhs': lhs, 'rhs': g.const(False)}
                break
        if ce:
            ev.append(dict(ce, op='con', m='m', id='c', form='rel'))
            ev.append({'op': 'mstr', 'm': 'c', 'at': at_all(g, al)})
    if r.random() < .3:
        ev.append({'op': 'mobs', 'm': 'm'})
    return ev


def sc_resstr(g):
    """printed results of scripted (and some real) executions"""
    r = g.r
    base = r.choice(['fit', 'fit', 'fit', 'con', 'con', 'lin', 'chain', 'callobj'])
    if base == 'lin':
        ev = gf.sc_linfit(g, mzs=['', 'SLSQP', 'LBFGSB', 'MINPACK', 'NelderMead'])
    elif base == 'con':
        ev = gf.fit_case(g, cons=1, style=r.choice(['auto', 'local', 'chain']), runs=1, nprobe=0)
    elif base == 'chain':
        ev = gf.fit_case(g, style='chain', runs=1, nprobe=0, cons=.5)
    elif base == 'callobj':
        ev = gf.sc_callobj(g)
    else:
        ev = gf.fit_case(g, runs=2, nprobe=0)
    if not ev:
        return None
    out = []
    al = set()
    for e in ev:
        if e['op'] == 'param':
            al.add(e['n'])
        for d in e.get('defs', []):
            al |= {d['n']} | syms(d['e'])
        for cexpr in [e.get('cexpr')] + [x.get(k) for x in e.get('cons', []) for k in ('lhs', 'rhs')] + [e.get('lhs'), e.get('rhs')]:
            if cexpr:
                al |= syms(cexpr)
    fits = {e['id']: e['op'] for e in ev if e['op'] in ('fit', 'mini')}
    todo = []
    for e in ev:
        out.append(e)
        if e['op'] == 'exec':
            if r.random() < .7:
                out.append({'op': 'resstr', 'r': e['id'], 'at': at_all(g, al)})
            todo.append(e['id'])
    if todo:
        out.append({'op': 'resstr', 'r': r.choice(todo), 'at': at_all(g, al)})
    return out


# --------------------------------------------------------------- interactive (C27)
def guess_params(g, vals, lone=False):
    """declared parameters with non-degenerate slider ranges"""
    r, ev = g.r, []
    for p, v in vals.items():
        a = {'value': v, 'min': 'none', 'max': 'none'}
        ch = r.random()
        if v <= 0 or ch < .5:
            a['min'] = v - r.choice([Fr(1, 2), Fr(1), Fr(2)]) if v <= 0 or r.random() < .7 else 'none'
            a['max'] = v + r.choice([Fr(1, 2), Fr(1), Fr(2)]) if v <= 0 or r.random() < .7 else 'none'
        ev.append(param(p, a['value'], a['min'], a['max'], 'true' if r.random() < .15 else 'false'))
    r.shuffle(ev)
    return ev


def sliders(g, ev, pars, vals, ok, n):
    """slider movements, some outside of the range"""
    r = g.r
    P = {e['n']: e for e in ev if e['op'] == 'param'}
    rng = {p: (Fr(0) if P[p]['min'] == 'none' else Fr(P[p]['min']),
               2 * Fr(P[p]['value']) if P[p]['max'] == 'none' else Fr(P[p]['max'])) for p in pars}
    cur = {p: Fr(P[p]['value']) for p in pars}
    out = []
    for _ in range(n):
        p = r.choice(pars)
        lo, hi = rng[p]
        v = lo + (hi - lo) * Fr(r.randint(0, 16), 16)
        new = dict(cur, **{p: min(max(v, lo), hi)})
        if not ok(new):
            continue
        cur = new
        out.append({'op': 'slide', 'g': 'g', 'n': p, 'v': str(v)})
    return out, cur


def sc_guess(g):
    r = g.r
    style = r.choice(['1d', '1d', '1d', 'nd', 'ode', 'multi'])
    if style == 'ode':
        for _ in range(30):
            o = go.make_ode(g, nv=r.choice([1, 1, 2]), npar=r.choice([1, 2]))
            if not o:
                continue
            k = r.choice([3, 4])
            ts = sorted({o.t0 + Fr(r.randint(1, 12), 8) for _ in range(k)} | {o.t0})
            if r.random() < .3:
                ts = ts[1:] if len(ts) > 2 else ts
            fine = ts + [ts[-1] + (ts[-1] - ts[0]) / 10]
            if any(x.startswith('_') for x in o.vs + [o.t] + o.pars):
                continue        # no valid LaTeX, which matplotlib refuses to draw
            ok = lambda pv: (lambda z: z[0] is not None and z[1] < 12)(o.solve(pv, [t for t in fine]))
            vals = {p: abs(g.val(-2, 2, nz=True)) * (r.choice([1, 1, -1])) for p in o.pars}
            if len(ts) > 1 and ok(vals):
                break
        else:
            return None
        ev = guess_params(g, vals)
        ev.append(o.event('m', {'rtol': go.TOL33, 'atol': go.TOL33}, '1/100000'))
        kw = [[o.t, {'k': 'arr', 'sh': [len(ts)], 'd': [str(t) for t in ts]}]]
        for v in o.vs:
            kw.append([v, g.array([len(ts)], -2, 2, True)])
        pars, npts = o.pars, r.choice([4, 6])
    else:
        for _ in range(80):
            nind = 1 if style != 'nd' else r.choice([2, 2, 3])
            defs, pars, inds = graph(g, funcs=r.random() < .4, depth=1, nind=nind, npar=r.choice([1, 2, 3]),
                                     ncomp=1 if style in ('1d', 'nd') and r.random() < .7 else r.choice([1, 2, 3]))
            if any(x.startswith('_') for x in pars + inds + [d['n'] for d in defs]):
                continue
            pb = gf.Prob(g, defs, pars, inds, mode='vec', ysame=True)
            if not pb.ok or any(len(set(pb.ind[i]['d'])) < 3 or len(pb.ind[i]['d']) < 3 for i in inds):
                continue
            vals = {p: abs(v) + (Fr(1, 2) if v == 0 else 0) if r.random() < .6 else v for p, v in pb.p0.items()}
            ends = {i: [min(Fr(t) for t in pb.ind[i]['d']) - 1, max(Fr(t) for t in pb.ind[i]['d']) + 1] for i in inds}
            import itertools
            grid = list(itertools.product(*[ends[i] + [Fr(0)] for i in inds]))

            def ok(pv):
                env = {i: np.array([float(t[k]) for t in grid]) for k, i in enumerate(inds)}
                env.update({p: float(v) for p, v in pv.items()})
                return g.small(defs, env, 500)
            if any(len({tuple(pb.dat[v]['sh'])}) > 1 for v in pb.deps) or not ok(vals):
                continue
            if any(len(set(pb.dat[v]['d'])) < 3 for v in pb.deps):
                continue
            if style == 'nd' and any(degenerate(pb, i, v) for i in inds for v in pb.deps):
                continue
            break
        else:
            return None
        ev = guess_params(g, vals)
        ev.append(model_ev('m', r.choice(['Model', 'Model', 'CallableModel']), defs))
        kw = [[n, d] for n, d in pb.ind.items()] + [[v, pb.dat[v]] for v in pb.deps]
        if r.random() < .25:
            v = r.choice(pb.deps)
            kw.append(['sigma_' + v, pb.sigma(v, 'num')])
        npts = r.choice([4, 5]) if style == 'nd' and nind == 3 else r.choice([3, 5, 7])
    r.shuffle(kw)
    ev.append({'op': 'guess', 'm': 'm', 'id': 'g', 'kw': kw, 'npts': npts})
    mv, cur = sliders(g, ev, pars, vals, ok, r.choice([1, 2, 4]))
    ev += mv
    if style != 'ode' and r.random() < .45:
        fx = {e['n'] for e in ev if e['op'] == 'param' and e['fixed'] == 'true'}
        if len(fx) < len(pars):
            ev.append(gf.fit_ev('f', m='m', kw=kw, mz=[r.choice(['BFGS', 'NelderMead', 'SLSQP', 'LBFGSB'])], tags=['C27']))
            fr = [p for p in sorted(pars) if p not in fx]
            ev.append(gf.exec_ev('f', 'r', script=[{'x': [cur[p] for p in fr], 'nit': 1, 'nfev': 1, 'message': 'ok'}]))
    if r.random() < .3:
        ev.append({'op': 'psnap'})
    ev.append({'op': 'closeguess', 'g': 'g'})
    return ev


def degenerate(pb, i, v):
    """the kernel density of matplotlib's background needs points in general position"""
    a = np.array([[float(Fr(t)) for t in pb.ind[i]['d']], [float(Fr(t)) for t in pb.dat[v]['d']]])
    if a.shape[1] < 3:
        return True
    return abs(np.linalg.det(np.cov(a))) < 1e-3
