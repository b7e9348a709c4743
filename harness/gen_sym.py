"""Scenarios over symbolic models: roles, evaluation, derivatives, negation,
comparison, constraints, expression calls (C01-C07, C29)."""
from genbase import *


def graph(g, kinds=('dag',), funcs=True, ncomp=None, depth=2, npar=None, nind=None):
    """random component graph: (defs, params, indeps)"""
    r = g.r
    nc = ncomp or r.choice([1, 1, 2, 2, 3, 3, 4])
    npar = r.choice([1, 2, 2, 3, 4]) if npar is None else npar
    nind = r.choice([0, 1, 1, 1, 2, 2, 3]) if nind is None else nind
    names = g.names(nc + npar + nind)
    comps, pars, inds = names[:nc], names[nc:nc + npar], names[nc + npar:]
    if r.random() < .25:      # adversarial: parameter names sort before/after variables
        names = sorted(names)
    defs, unused = [], list(pars) + list(inds)
    r.shuffle(unused)
    for i, n in enumerate(comps):
        prev = comps[:i]
        use = [p for p in prev if r.random() < .5] if getattr(g, 'coll', 0) < 1 else []
        own = [x for x in pars + inds if r.random() < .45]
        if i == nc - 1:
            own = list(set(own) | set(unused))
        if not use and not own:
            own = [r.choice(pars + inds)]
        unused = [x for x in unused if x not in own]
        sy = use + own
        e = g.expr(sy, depth=depth if len(sy) < 4 else 1, funcs=funcs, need=sy)
        defs.append({'n': n, 'e': e})
    r.shuffle(defs)
    if r.random() < getattr(g, 'coll', 0):
        defs, pars, inds = collide(g, defs, pars, inds)
    return defs, pars, inds


def rename(e, f):
    if e['o'] == 's':
        return s(f.get(e['n'], e['n']))
    e = dict(e)
    if 'a' in e:
        e['a'] = [rename(x, f) for x in e['a']] if isinstance(e['a'], list) else rename(e['a'], f)
    if 'b' in e:
        e['b'] = rename(e['b'], f)
    return e


def collide(g, defs, pars, inds):
    """the same graph with a name which reads like a derivative of a component"""
    r = g.r
    comps = [d['n'] for d in defs]
    if any(c in syms(d['e']) for d in defs for c in comps) or not pars:
        return defs, pars, inds
    ch = r.random()
    if ch < .35 and len(pars) > 2 and not {'b2', 'adb', 'a'} & set(comps + pars + inds):
        f = dict(zip(pars, ['a', 'b2', 'adb']))
    else:
        y, p = r.choice(comps), r.choice(pars)
        pool = [n for n in comps + pars + pars + inds if n not in (y, p)]
        if not pool:
            return defs, pars, inds
        q = r.choice(pars)
        f = {r.choice(pool): r.choice(['d%s_d%s' % (y, p), 'd2%s_d%s2' % (y, p), 'd2%s_d%sd%s' % ((y,) + tuple(sorted((p, q))))])}
    nm = lambda n: f.get(n, n)
    new = [{'n': nm(d['n']), 'e': rename(d['e'], f)} for d in defs]
    if any(not g.ok(d['e']) for d in new):
        return defs, pars, inds
    return new, [nm(n) for n in pars], [nm(n) for n in inds]


def shapes(g, inds, mode=None):
    r = g.r
    mode = mode or r.choice(['vec', 'vec', 'vec', 'scalar', 'mat', 'mixed', 'bc'])
    sh = {}
    n = r.choice([1, 2, 3, 4])
    for i in inds:
        if mode == 'vec':
            sh[i] = [n]
        elif mode == 'scalar':
            sh[i] = []
        elif mode == 'mat':
            sh[i] = [2, 3]
        elif mode == 'mixed':
            sh[i] = r.choice([[], [n]])
        else:
            sh[i] = r.choice([[2, 1], [3], [2, 3], []])
    return sh


def point(g, defs, pars, inds, mode=None, lim=2e3, tries=40):
    """values for all inputs with moderate results"""
    for k in range(tries):
        sh = shapes(g, inds, mode)
        hi = 3 if k < 10 else 2 if k < 25 else 1
        vals = {i: (g.num(g.val(-hi, hi)) if sh[i] == [] else g.array(sh[i], -hi, hi)) for i in inds}
        vals.update({p: g.num(g.val(-hi, hi)) for p in pars})
        try:
            env = {n: fl(v) for n, v in vals.items()}
            if g.small(defs, env, lim):
                return vals
        except ValueError:
            continue
    return None


def args(g, vals, order, style=None):
    """pass the values positionally, by keyword or mixed"""
    r = g.r
    style = style or r.choice(['pos', 'kw', 'mix'])
    if style == 'pos':
        return {'pos': [vals[n] for n in order], 'kw': []}
    if style == 'kw':
        names = list(order)
        r.shuffle(names)
        return {'pos': [], 'kw': [[n, vals[n]] for n in names]}
    k = r.randint(0, len(order))
    rest = list(order[k:])
    r.shuffle(rest)
    return {'pos': [vals[n] for n in order[:k]], 'kw': [[n, vals[n]] for n in rest]}


def order_of(defs, pars):
    """argument order by the stated rule; only used to build valid calls"""
    used = set().union(*[syms(d['e']) for d in defs])
    dn = {d['n'] for d in defs}
    return sorted(used - dn - set(pars)) + sorted(used & set(pars))


def decl(g, pars, fixed=False):
    ev = [param(p, g.val(-2, 3)) for p in pars]
    if fixed:
        for x in ev:
            if g.r.random() < .4:
                x['fixed'] = 'true'
    g.r.shuffle(ev)
    return ev


def model_ev(mid, kind, defs, form='dict'):
    return {'op': 'model', 'id': mid, 'kind': kind, 'defs': defs, 'form': form}


def sc_roles(g):
    """C01: graphs without evaluation, larger and with awkward structures"""
    r = g.r
    g.coll = getattr(g, 'coll', .06)
    ch = r.random()
    ev = []
    if ch < .12:          # circular or parameters as variables: refused
        defs, pars, inds = graph(g, ncomp=r.choice([2, 3]), funcs=False, depth=1, nind=1)
        ev += decl(g, pars)
        if r.random() < .25:
            k = r.randrange(len(defs))
            a = defs[k]
            defs = defs[:k] + [dict(a, e=add(a['e'], mul(c(2), s(a['n']))))] + defs[k + 1:]
        elif r.random() < .6:
            a, b = defs[0], defs[1]
            a = dict(a, e=add(a['e'], s(b['n'])))
            b = dict(b, e=mul(b['e'], s(a['n'])) if r.random() < .5 else add(b['e'], s(a['n'])))
            defs = [a, b] + defs[2:]
        else:
            d = dict(defs[0])
            p = r.choice(pars)
            d = {'n': p, 'e': add(s(inds[0]), c(1)) if inds else c(1)}
            defs = defs + [d]
            if r.random() < .5:      # ... used elsewhere or not
                defs = [x for x in defs if p in syms(x['e']) or x is d]
        ev.append(model_ev('m', r.choice(['Model', 'CallableModel', 'GradientModel']), defs))
        return ev
    if ch < .24:          # constant components
        defs, pars, inds = graph(g, funcs=False, depth=1)
        ev += decl(g, pars)
        avoid = pars + inds + [d['n'] for d in defs]
        cn = g.names(1, avoid)[0]
        if r.random() < .15:
            defs = [{'n': cn, 'e': g.const()}]
        elif r.random() < .5:
            defs = defs + [{'n': cn, 'e': g.const()}]
        else:
            defs = [dict(d, e=add(d['e'], s(cn))) if i == 0 else d for i, d in enumerate(defs)]
            defs += [{'n': cn, 'e': g.const()}]
        ev.append(model_ev('m', 'Model', defs))
        return ev
    defs, pars, inds = graph(g, funcs=r.random() < .3, depth=1, ncomp=r.choice([1, 2, 3, 4, 5, 6]))
    ev += decl(g, pars, fixed=True)
    kind = r.choice(['Model', 'Model', 'CallableModel', 'GradientModel', 'HessianModel'])
    ev.append(model_ev('m', kind, defs))
    if r.random() < .4:
        d2 = list(defs)
        r.shuffle(d2)
        ev.append(model_ev('m2', kind, d2))
    if r.random() < .3:
        ev.append({'op': 'mobs', 'm': 'm'})
    return ev


def sc_eval(g, what=('call',), funcs=True):
    r = g.r
    g.coll = getattr(g, 'coll', .06)
    while True:
        defs, pars, inds = graph(g, funcs=funcs)
        vals = point(g, defs, pars, inds)
        if vals:
            break
    ev = decl(g, pars)
    need = {'call': ['Model', 'CallableModel', 'GradientModel', 'HessianModel'],
            'jac': ['Model', 'GradientModel', 'HessianModel'], 'hess': ['Model', 'HessianModel'],
            'fd': ['Model', 'GradientModel', 'HessianModel']}
    kinds = set(need['call'])
    for w in what:
        kinds &= set(need.get(w, need['call']))
    kind = r.choice(sorted(kinds))
    ev.append(model_ev('m', kind, defs))
    order = order_of(defs, pars)
    for w in what:
        for k in range(2 if w == 'call' else 1):
            v = vals if k == 0 else (point(g, defs, pars, inds) or vals)
            e = {'op': w, 'm': 'm'}
            e.update(args(g, v, order))
            if w == 'call':
                e['pick'] = r.random() < .4
            ev.append(e)
    if 'call' in what and r.random() < .4:      # refused calls
        bad = args(g, vals, order, r.choice(['pos', 'kw']))
        ch = r.random()
        if ch < .35 and (bad['pos'] or bad['kw']):
            (bad['pos'] or bad['kw']).pop()
        elif ch < .6:
            bad['kw'] = bad['kw'] + [['nope', g.num(1)]]
        elif ch < .8 and bad['pos']:
            bad['kw'] = bad['kw'] + [[r.choice(order), g.num(1)]]
        else:
            bad['pos'] = bad['pos'] + [g.num(1)] * (len(order) + 1 - len(bad['pos']))
        ev.append(dict(op='call', m='m', **bad))
    return ev


def rescale(e, f):
    """the expression with the symbols n of f replaced by f[n] * n"""
    if e['o'] == 's':
        return mul(c(f[e['n']]), e) if e['n'] in f else e
    e = dict(e)
    if 'a' in e:
        e['a'] = [rescale(x, f) for x in e['a']] if isinstance(e['a'], list) else rescale(e['a'], f)
    if 'b' in e:
        e['b'] = rescale(e['b'], f)
    return e


def sc_fd(g):
    """C05: finite differences, default and given steps, awkward parameter values"""
    r = g.r
    for _ in range(200):
        defs, pars, inds = graph(g, depth=r.choice([1, 1, 2]), ncomp=r.choice([1, 1, 2, 3]))
        vals = point(g, defs, pars, inds, lim=40, tries=10)
        if vals:
            break
    else:
        return None
    kind = r.choice(['Model', 'GradientModel'])
    for p in pars:
        if r.random() < .3:
            vals[p] = g.num(r.choice([Fr(0), Fr(1, 10**9), Fr(-1, 10**8), Fr(1, 10**6), Fr(-3, 10**5),
                                      Fr(0), Fr(1, 1000)]))
    env = {n: fl(v) for n, v in vals.items()}
    if not g.small(defs, env, 40):
        return None
    if r.random() < .35:      # parameters of very different magnitude
        f = {p: Fr(2) ** -r.choice([5, 10, 16, 24, 40]) for p in pars if r.random() < .7 and abs(env[p]) > .1}
        defs = [dict(d, e=rescale(d['e'], f)) for d in defs]
        for p in f:
            vals[p] = g.num(Fr(vals[p]['v']) / f[p])
        if any(not g.ok(d['e']) for d in defs):
            return None
    ev = decl(g, pars, fixed=True)
    ev.append(model_ev('m', kind, defs))
    order = order_of(defs, pars)
    for dx in r.sample([None, None, Fr(1, 2000), Fr(1, 10**5)], 2):
        e = dict(op='fd', m='m', mag='40', **args(g, vals, order))
        if dx:
            e['dx'] = str(dx)
        ev.append(e)
    return ev


def sc_symjac(g, hess=False):
    while True:
        defs, pars, inds = graph(g)
        vals = point(g, defs, pars, inds, mode='scalar')
        if vals:
            break
    ev = decl(g, pars)
    ev.append(model_ev('m', 'Model' if hess else g.r.choice(['Model', 'GradientModel']), defs))
    ev.append({'op': 'symjac', 'm': 'm', 'at': [[n, v['v']] for n, v in sorted(vals.items())], 'hess': hess})
    return ev


def sc_neg(g):
    r = g.r
    g.coll = getattr(g, 'coll', .06)
    while True:
        defs, pars, inds = graph(g)
        vals = point(g, defs, pars, inds)
        if vals:
            break
    ev = decl(g, pars)
    kind = r.choice(['Model', 'CallableModel', 'GradientModel', 'HessianModel'])
    order = order_of(defs, pars)
    ev.append(model_ev('m', kind, defs))
    if r.random() < .3:
        ev.append(dict(op='call', m='m', **args(g, vals, order)))
    ev.append({'op': 'neg', 'm': 'm', 'id': 'n'})
    for m in ['n', 'm']:
        ev.append(dict(op='call', m=m, **args(g, vals, order)))
    if kind != 'CallableModel':
        ev.append(dict(op='jac', m='n', **args(g, vals, order)))
    if r.random() < .4:
        ev.append({'op': 'neg', 'm': 'n', 'id': 'nn'})
        ev.append(dict(op='call', m='nn', **args(g, vals, order)))
        ev.append({'op': 'meq', 'x': 'nn', 'y': 'm'})
    ev.append({'op': 'meq', 'x': 'n', 'y': 'm'})
    return ev


def rewrite(g, e):
    """an expression with the same expansion"""
    r = g.r
    if e['o'] == '+':
        a = [rewrite(g, x) for x in e['a']]
        r.shuffle(a)
        return add(*a)
    if e['o'] == '*':
        a = list(e['a'])
        r.shuffle(a)
        for i, x in enumerate(a):
            if x['o'] == '+' and len(a) > 1:
                rest = a[:i] + a[i + 1:]
                return add(*[mul(*(rest + [y])) for y in x['a']])
        return mul(*[rewrite(g, x) for x in a])
    if e['o'] == '^' and e['k'] > 0:
        return mul(*([e['b']] * e['k']))
    return e


OTHERS = ['int', 'none', 'str', 'dict', 'list', 'array']


def sc_dname(g):
    """C03, C04: names which read like a derivative"""
    r = g.r
    g.coll = 1
    ch = r.random()
    return sc_symjac(g, r.random() < .5) if ch < .3 else sc_eval(g, r.choice([('call', 'jac', 'hess'), ('hess',), ('jac',)]))


def sc_eq(g):
    r = g.r
    g.coll = getattr(g, 'coll', .06)
    if r.random() < .02:      # many components
        k = r.choice([3, 128, 256, 257, 260])
        defs = [{'n': 'v%d' % i, 'e': mul(s('p'), add(s('x'), c(i)))} for i in range(k)]
        d2 = [dict(d) for d in defs]
        r.shuffle(d2)
        if r.random() < .3:
            i = r.randrange(k)
            d2[i] = dict(d2[i], e=add(d2[i]['e'], c(1)))
        return [param('p', 1), model_ev('m', 'CallableModel', defs), model_ev('m2', 'CallableModel', d2),
                {'op': 'meq', 'x': 'm', 'y': 'm2'}]
    defs, pars, inds = graph(g, funcs=False)
    ev = decl(g, pars)
    d2 = [dict(d, e=rewrite(g, d['e'])) for d in defs]
    ch = r.random()
    if ch < .3:
        i = r.randrange(len(d2))
        d2[i] = dict(d2[i], e=add(d2[i]['e'], mul(c(r.choice([-1, 1, 2])), s(r.choice(sorted(syms(d2[i]['e'])))))))
    elif ch < .4 and len(d2) > 1:
        i = r.randrange(len(d2))
        d2 = d2[:i] + d2[i + 1:]
    elif ch < .5:
        nn = g.names(1, [d['n'] for d in defs] + pars + inds)[0]
        d2 = d2 + [{'n': nn, 'e': mul(s(pars[0]), c(2))}]
    elif ch < .6:
        nn = g.names(1, [d['n'] for d in defs] + pars + inds)[0]
        i = r.randrange(len(d2))
        if not any(d2[i]['n'] in syms(x['e']) for x in d2):
            d2[i] = {'n': nn, 'e': d2[i]['e']}
    r.shuffle(d2)
    if any(not g.ok(d['e']) for d in d2):
        return None
    k1 = r.choice(['Model', 'CallableModel', 'GradientModel', 'HessianModel'])
    k2 = k1 if r.random() < .7 else r.choice(['Model', 'CallableModel', 'GradientModel', 'HessianModel'])
    ev += [model_ev('m', k1, defs), model_ev('m2', k2, d2), {'op': 'meq', 'x': 'm', 'y': 'm2'},
           {'op': 'meq', 'x': 'm2', 'y': 'm'}]
    if r.random() < .3:
        ev.append({'op': 'meq', 'x': 'm', 'y': r.choice(OTHERS), 'sym': True})
    return ev


def reach(defs, sy):
    by = {d['n']: d['e'] for d in defs}
    sy = set(sy)
    while True:
        new = sy | set().union(*[syms(by[n]) for n in sy if n in by])
        if new == sy:
            return sy
        sy = new


def sc_con(g):
    r = g.r
    for _ in range(50):
        defs, pars, inds = graph(g, funcs=r.random() < .5, depth=r.choice([1, 1, 2]),
                                 ncomp=r.choice([1, 2, 3, 4]))
        vals = point(g, defs, pars, inds)
        if vals:
            break
    else:
        return None
    ev = decl(g, pars, fixed=True)
    kind = r.choice(['Model', 'Model', 'CallableModel', 'GradientModel'])
    ev.append(model_ev('m', kind, defs))
    avail = list(pars)
    if r.random() < .6:
        avail += [d['n'] for d in defs]
    if r.random() < .25:
        avail += inds
    foreign = r.random() < .1
    if foreign:
        fp = g.names(1, [d['n'] for d in defs] + pars + inds)[0]
        ev.append(param(fp, 1))
    for k in range(r.choice([1, 2])):
        sy = r.sample(avail, min(len(avail), r.choice([1, 1, 2, 3])))
        if foreign:
            sy = sy + [fp]
        half = r.randint(0, len(sy))
        lhs = g.expr(sy[:half], depth=1, funcs=False, need=sy[:half]) if half else g.const(False)
        rhs = g.expr(sy[half:], depth=1, funcs=False, need=sy[half:]) if half < len(sy) else g.const(False)
        if not (syms(lhs) | syms(rhs)):
            continue
        if not g.ok(add(lhs, mul(c(-1), rhs))):
            continue
        rel = r.choice(['eq', 'ge', 'le', 'ge', 'le', 'eq', 'gt', 'lt', 'ne'])
        e = {'op': 'con', 'm': 'm', 'id': 'c%d' % k, 'rel': rel, 'lhs': lhs, 'rhs': rhs, 'form': 'rel'}
        if r.random() < .2:
            e['form'] = 'dict'
            e['cn'] = g.names(1, [d['n'] for d in defs] + pars + inds)[0]
        elif r.random() < .06 and syms(lhs) and syms(rhs):
            e['form'] = 'two'
        ev.append(e)
        # evaluation
        alld = defs + [{'n': '$c', 'e': add(lhs, mul(c(-1), rhs))}]
        v = None
        for _ in range(20):
            v = point(g, alld, pars, inds)
            if v:
                break
        if v and not foreign and e['form'] != 'two' and rel in ('eq', 'ge', 'le'):
            need = reach(defs, syms(lhs) | syms(rhs))
            ev.append({'op': 'concall', 'c': 'c%d' % k,
                       'kw': [[n, x] for n, x in sorted(v.items()) if n in pars or (n in inds and n in need)]})
        if r.random() < .2:
            ev.append({'op': 'mobs', 'm': 'm'})
    return ev


def sc_exprcall(g):
    r = g.r
    k = r.choice([1, 2, 3, 4])
    names = g.names(k)
    pars = [n for n in names if r.random() < .5]
    e = g.expr(names, depth=2, need=names)
    d = [{'n': '$e', 'e': e}]
    inds = [n for n in names if n not in pars]
    vals = point(g, d, pars, inds)
    if not vals:
        return None
    # parameters may be arrays here too
    ev = decl(g, pars)
    order = sorted(inds) + sorted(pars)
    for _ in range(2):
        a = args(g, vals, order)
        if r.random() < .4:
            a['kw'] = a['kw'] + [[n, g.num(5)] for n in g.names(1, names)]
        if r.random() < .25:
            (a['pos'] if a['pos'] and r.random() < .5 else a['kw'] if a['kw'] else a['pos']).pop()
        ev.append(dict(op='exprcall', e=e, **a))
    return ev
