"""Scenarios made from other scenarios: the same sessions with models whose
components are callables (C10) and with pickled objects (C26)."""
import copy
from genbase import *
from enc import syms
from gen_sym import reach

DROP = {'hess', 'symjac', 'meq', 'mstr', 'mcache'}


def callables(g, defs, pars, keep=(), extra=()):
    """some components as callables with their own argument order; a callable
    may also state dependencies it does not use"""
    r = g.r
    dn = {d['n'] for d in defs}
    used = set().union(*[syms(d['e']) for d in defs]) - dn
    res, some = [], False
    for i, d in enumerate(defs):
        d = {'n': d['n'], 'e': d['e']}
        own = sorted(syms(d['e']))
        if own and d['n'] not in keep and (r.random() < .7 or (i == len(defs) - 1 and not some)):
            some = True
            dep = list(own)
            if r.random() < .3:
                dep += [x for x in used if x not in dep and r.random() < .4]
            dep += [x for x in extra if r.random() < .3]
            r.shuffle(dep)
            d.update(impl='py', args=dep, dep=sorted(dep))
        elif own and d['n'] not in keep and r.random() < (.6 if extra else .4):
            # an expression whose dependencies are stated, too
            d['dep'] = sorted(own + [x for x in used if x not in own and r.random() < .5]
                              + [x for x in extra if r.random() < .6])
        res.append(d)
    return res if some else None


def numeric(g, case_ev, grad=None):
    """the events of a session on symbolic models with numerical models instead"""
    r = g.r
    ev, pars = [], []
    # components in constraints have to be expressions
    keep = set()
    for e in case_ev:
        for k in ([e] if e['op'] == 'con' else e.get('cons', []) if e['op'] == 'fit' else []):
            if 'lhs' in k:
                keep |= syms(k['lhs']) | syms(k['rhs'])
    for e in case_ev:
        if e.get('defs') and e['op'] in ('model', 'fit'):
            keep = reach(e['defs'], keep)
    grad = r.random() < .6 if grad is None else grad
    extra = []      # symbols only mentioned among the stated dependencies
    if all(e['op'] in ('param', 'model', 'mobs') for e in case_ev) and r.random() < .6:
        names = {e.get('n') for e in case_ev} | {x for e in case_ev for d in e.get('defs', []) for x in syms(d['e']) | {d['n']}}
        extra = [n for n in g.names(12) if n not in names][:2]
        ev += [param(n, g.val(-2, 3)) for n in extra[:1]]
        pars += extra[:1]
    for e in case_ev:
        e = copy.deepcopy(e)
        if e['op'] == 'param':
            pars.append(e['n'])
        if e['op'] in DROP or e.get('form') in ('list', 'expr') and e['op'] == 'model':
            if e['op'] == 'model':
                return None
            continue
        if e['op'] == 'model':
            if e['kind'] not in ('Model', 'CallableModel', 'GradientModel', 'HessianModel'):
                return None
            e['kind'] = 'GradientNumericalModel' if grad else 'CallableNumericalModel'
            defs = callables(g, e['defs'], pars, keep, extra)
            if not defs:
                return None
            e['defs'] = defs
        elif e['op'] in ('jac', 'fd') and not grad:
            continue
        elif e['op'] == 'fit' and 'defs' in e and not e.get('m'):
            if e.get('form', 'dict') != 'dict':
                return None
            mid = 'mm_' + e['id']
            defs = callables(g, e.pop('defs'), pars, keep)
            if not defs:
                return None
            ev.append({'op': 'model', 'id': mid, 'kind': 'GradientNumericalModel' if grad else 'CallableNumericalModel',
                       'defs': defs, 'form': 'dict'})
            e['m'] = mid
        ev.append(e)
    return ev if any(x['op'] == 'model' for x in ev) else None


def sc_numeric(base, grad=None):
    def sc(g):
        from gens import SCEN
        for _ in range(30):
            b = SCEN[base](g)
            if isinstance(b, dict):
                tail = {k: v for k, v in b.items() if k != 'ev'}
                b = b['ev']
            else:
                tail = {}
            b = b and numeric(g, b, grad)
            if b:
                return dict(tail, scen='num_' + base, ev=b) if tail else b
        return None
    return sc


def sc_numeq(g):
    """C35: comparison of numerical models"""
    from gen_sym import graph, model_ev, rewrite, OTHERS
    r = g.r
    defs, pars, inds = graph(g, funcs=r.random() < .3, depth=1)
    nd = callables(g, defs, pars)
    if not nd:
        return None
    ev = [param(p, g.val(-2, 3)) for p in pars]
    kinds = ['CallableNumericalModel', 'GradientNumericalModel']
    k = r.choice(kinds)
    ev.append(model_ev('m', k, nd))
    names = ['m']
    for j in range(r.choice([1, 2])):
        i, ch = 'm%d' % (j + 2), r.random()
        d2 = copy.deepcopy(nd)
        r.shuffle(d2)
        if ch < .3:
            pass
        elif ch < .45:
            x = r.randrange(len(d2))
            d2[x]['e'] = add(d2[x]['e'], c(r.choice([1, 2, -3])))
        elif ch < .55:
            x = r.randrange(len(d2))
            d2[x]['e'] = rewrite(g, d2[x]['e'])
        elif ch < .65:      # other argument order of a callable
            for d in d2:
                if 'args' in d:
                    r.shuffle(d['args'])
        elif ch < .75:      # a component more or less
            if len(d2) > 1 and r.random() < .5:
                x = r.choice(d2)
                if any(x['n'] in syms(d['e']) for d in d2) or not any('args' in d for d in d2 if d is not x):
                    continue
                d2.remove(x)
            else:
                d2.append({'n': g.names(1, [d['n'] for d in defs] + pars + inds)[0], 'e': mul(c(2), s(pars[0]))})
        elif ch < .85:
            d2 = [{'n': d['n'], 'e': d['e']} for d in d2]
        else:
            ev.append({'op': 'neg', 'm': r.choice(names), 'id': i})
            names.append(i)
            continue
        if any(not g.ok(d['e']) for d in d2):
            continue
        ev.append(model_ev(i, (k if r.random() < .8 else r.choice(kinds)) if any('args' in d for d in d2)
                           else r.choice(['Model', 'CallableModel']), d2))
        names.append(i)
    for _ in range(3):
        ev.append({'op': 'meq', 'x': r.choice(names), 'y': r.choice(names)})
    if len(names) > 1:
        ev.append({'op': 'meq', 'x': names[0], 'y': names[1]})
    if r.random() < .3:
        ev.append({'op': 'meq', 'x': r.choice(names), 'y': r.choice(OTHERS), 'sym': True})
    return ev


def sc_oeq(g):
    """C35: comparison of objectives"""
    from gen_fit import obj_problem, declare, fit_ev
    from gen_sym import model_ev, OTHERS
    r = g.r
    all_cls = ['LeastSquares', 'LeastSquares', 'VectorLeastSquares', 'LogLikelihood', 'MinimizeModel']
    cls = r.choice(all_cls)
    pb = obj_problem(g, cls)
    if not pb:
        return None
    P, ev = declare(g, pb, bound=.05)
    defs = pb.defs
    kind = r.choice(['Model', 'Model', 'GradientModel', 'CallableModel'])
    if r.random() < .3:
        nd = callables(g, defs, pb.pars)
        if nd:
            defs, kind = nd, 'CallableNumericalModel'
    dens = cls in ('LogLikelihood', 'MinimizeModel')
    base = [[n, d] for n, d in pb.ind.items()]
    if not dens:
        for v in pb.deps:
            base += [[v, pb.dat[v]], ['sigma_' + v, pb.sigma(v, 'arr')]]
    ev.append(model_ev('m', kind, defs))
    ev.append({'op': 'mkobj', 'id': 'o', 'm': 'm', 'cls': cls, 'data': base})
    names = ['o']
    for j in range(r.choice([2, 3])):
        i, ch, mid, k2 = 'o%d' % (j + 2), r.random(), 'm', cls
        data = copy.deepcopy(base)
        if ch < .15:
            r.shuffle(data)
        elif ch < .35 and data:      # a value
            x = r.choice(data)[1]
            if x.get('sh') is None or not x['d']:
                continue
            t = r.randrange(len(x['d']))
            x['d'][t] = str(Fr(x['d'][t]) + r.choice([Fr(1), Fr(1, 4), Fr(-1, 2)]))
            x['v'] = x['d'][0]
        elif ch < .5 and data:      # the shape
            q = r.randrange(len(data))
            x = data[q][1]
            if r.random() < .5:      # same values, broadcast
                v = x['d'][0]
                n = r.choice([1, 2, 3])
                data[q][1] = {'k': 'arr', 'sh': [n], 'd': [v] * n}
            else:
                data[q][1] = {'k': 'arr', 'sh': [len(x['d']) + 1], 'd': list(x['d']) + ['1/2']}
            if r.random() < .5 and data[q][1]['sh']:
                z = [['o%d_b' % (j + 2), [[n, d] if t != q else [n, {'k': 'arr', 'sh': [1], 'd': [data[q][1]['d'][0]]}]
                                          for t, (n, d) in enumerate(copy.deepcopy(data))]]]
                for y, dd in z:
                    ev.append({'op': 'mkobj', 'id': y, 'm': mid, 'cls': k2, 'data': dd})
                    names.append(y)
        elif ch < .6 and not dens and len(pb.deps) > 1:      # no data for a component
            v = r.choice(pb.deps)
            data = [[n, {'k': 'none'} if n == v or (n == 'sigma_' + v and r.random() < .5) else d] for n, d in data]
        elif ch < .8:
            k2 = r.choice(['LeastSquares', 'VectorLeastSquares'] if not dens else ['LogLikelihood', 'MinimizeModel'])
            if k2 == 'MinimizeModel' and len(pb.deps) > 1:
                k2 = cls
        else:
            mid = 'm%d' % (j + 2)
            d2 = copy.deepcopy(defs)
            r.shuffle(d2)
            if r.random() < .6:
                x = r.randrange(len(d2))
                d2[x]['e'] = add(d2[x]['e'], c(r.choice([1, 2, -3])))
            if any(not g.ok(d['e']) for d in d2):
                continue
            ev.append(model_ev(mid, kind, d2))
        ev.append({'op': 'mkobj', 'id': i, 'm': mid, 'cls': k2, 'data': data})
        names.append(i)
    if r.random() < .4:
        kw = [[n, d] for n, d in base]
        ev.append(fit_ev('f', m='m', kw=kw, objective=cls))
        names.append('f')
    for i in range(len(names)):
        for j in range(i):
            if r.random() < .6:
                ev.append({'op': 'oeq', 'x': names[i], 'y': names[j]})
    x = r.choice(names)
    ev.append({'op': 'oeq', 'x': x, 'y': x})
    if r.random() < .4:
        ev.append({'op': 'oeq', 'x': r.choice(names), 'y': r.choice(OTHERS), 'sym': True})
    return ev


# -- pickling (C26) -----------------------------------------------------------
REF = ('m', 'x', 'y', 'c', 'f', 'r', 'g', 'oid')
NOREF = {'peq', 'peqattr', 'params', 'dump', 'load', 'pickle'}
MAKES = {'model', 'neg', 'con', 'fit', 'mkobj', 'mini', 'exec'}


def rename(e, now):
    if e['op'] in NOREF:
        return
    for k in REF:
        if isinstance(e.get(k), str) and e[k] in now:
            e[k] = now[e[k]]
    for k in e.get('cons', []):
        if 'id' in k:
            k['id'] = now.get(k['id'], k['id'])


def alive(ev):
    """names of the symbols which exist after the events"""
    n = set()
    for e in ev:
        if e['op'] in ('param', 'var'):
            n.add(e['n'])
        for d in e.get('defs', []):
            n |= {d['n']} | set(syms(d['e']))
        if e['op'] == 'model' and e['kind'] == 'ODE':
            n |= {k for k, _ in e['initial']}
        if e['op'] == 'msym':
            n |= {e['n']} | {d for d in e['sh'] if isinstance(d, str)}
    return n


def scalars(ev):
    mat = [e for e in ev if e['op'] == 'msym']
    return alive(ev) - {e['n'] for e in mat} - {d for e in mat for d in e['sh'] if isinstance(d, str)}


def look(kind, x):
    """an event which observes a restored object"""
    if kind in ('model', 'neg', 'con'):
        return {'op': 'mobs', 'm': x}
    if kind == 'fit':
        return {'op': 'fitobs', 'f': x}
    if kind == 'exec':
        return {'op': 'res', 'r': x}
    return None


def pickled(g, case_ev, fresh=False, p=.45):
    """some objects are replaced by restored copies at some later moment"""
    r = g.r
    ev, now, made, k, kind = [], {}, [], 0, {}
    for e in case_ev:
        e = copy.deepcopy(e)
        rename(e, now)
        ev.append(e)
        if e['op'] == 'pickle':
            e['x'] = now.get(e['x'], e['x'])
            kind[e['id']] = kind[e['x']]
        if e['op'] in MAKES:
            made.append(e['id'])
            kind[e['id']] = e['op']
        for x in r.sample(made, len(made)):
            if r.random() < p / len(made):
                k += 1
                y = '%s_p%d' % (x.split('_p')[0], k)
                ev.append({'op': 'pickle', 'x': x, 'id': y, 'proto': r.choice([2, 3, 4, 5])})
                base = [a for a, b in now.items() if b == x] + [x]
                now.update({a: y for a in base})
                made[made.index(x)] = y
                kind[y] = kind[x]
                o = look(kind[x], y)
                if o and r.random() < .6:
                    ev.append(o)
    if not fresh:
        return ev if any(e['op'] == 'pickle' for e in ev) else None
    cuts = [i for i in range(1, len(ev)) if any(e['op'] in MAKES for e in ev[:i])]
    if not cuts:
        return None
    i = r.choice(cuts)
    pre, post = ev[:i], ev[i:]
    ids = [e['id'] for e in pre if e['op'] in MAKES | {'pickle'}]
    sy = sorted(alive(pre))
    out = pre + [{'op': 'dump', 'b': 'b0', 'xs': ids, 'syms': sy, 'proto': r.choice([2, 4, 5])}]
    sc = sorted(scalars(pre))
    for n in r.sample(sc, min(len(sc), 2)):
        out.append({'op': 'fsym', 'n': n, 'fresh': 'b0'})
    for x in r.sample(ids, min(len(ids), 3)):
        o = look(kind[x], x)
        if o:
            out.append(dict(o, fresh='b0'))
    for e in post:
        out.append(dict(e, fresh='b0'))
    return out


def loaded(g, case_ev):
    """an earlier dump is loaded again while its symbols are in use"""
    r = g.r
    ev = copy.deepcopy(case_ev)
    cuts = [i for i in range(1, len(ev)) if any(e['op'] in MAKES for e in ev[:i])]
    if not cuts or any(e['op'] == 'pickle' for e in ev):
        return None
    i = r.choice(cuts)
    j = r.choice([r.randint(i, len(ev)), min(len(ev), i + r.choice([0, 1, 2]))])
    kind = {e['id']: e['op'] for e in ev[:i] if e['op'] in MAKES}
    ids = sorted(kind)
    new = {x: x + '_l' for x in ids}
    mid = ev[i:j]
    pars = [e['n'] for e in ev[:i] if e['op'] == 'param']
    if not any(e['op'] == 'setp' for e in mid) and pars and r.random() < .15:
        mid = mid + [{'op': 'setp', 'n': r.choice(pars), 'a': 'value', 'v': str(g.val(-2, 2))}]
    out = ev[:i] + [{'op': 'dump', 'b': 'b0', 'xs': ids, 'syms': sorted(alive(ev[:i])), 'proto': r.choice([2, 4, 5])}]
    out += mid + [{'op': 'load', 'b': 'b0', 'xs': ids, 'ids': [new[x] for x in ids]}]
    for x in r.sample(ids, min(len(ids), 3)):
        o = look(kind[x], new[x])
        if o:
            out.append(o)
    # values set in between are lost (known finding): no more runs then
    if any(e['op'] in ('setp', 'slide', 'guess') for e in mid):
        return out
    for e in ev[j:]:
        if r.random() < .6:
            rename(e, new)
        out.append(e)
        if e['op'] in MAKES:
            new.pop(e['id'], None)
    return out


def sc_pickled(base, fresh):
    def sc(g):
        from gens import SCEN
        for _ in range(30):
            b = SCEN[base](g)
            if isinstance(b, dict):
                tail = {k: v for k, v in b.items() if k != 'ev'}
                b = b['ev']
            else:
                tail = {}
            b = b and (loaded(g, b) if fresh == 'load' else pickled(g, b, fresh))
            if b:
                return dict(tail, scen=('load_' if fresh == 'load' else 'fresh_' if fresh else 'pick_') + base, ev=b) if tail else b
        return None
    return sc
