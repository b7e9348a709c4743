"""Scripted environment: the optimisers of scipy, recorded and optionally replaced.

Must be imported before symfit.  The wrappers stand for the environment action of
the specification "the optimiser is called / the optimiser answers x"."""
import inspect
import json
import math
import types
import numpy as np
import scipy.optimize as so
from enc import q

NAMES = ('minimize', 'differential_evolution', 'basinhopping', 'least_squares')
REAL = {n: getattr(so, n) for n in NAMES}
SIGS = {n: inspect.signature(REAL[n]) for n in NAMES}
CTL = types.SimpleNamespace(active=False, depth=0, script=None, calls=None, probes=(),
                            mut=None)


def norm_bounds(b):
    if b is None:
        return []
    if isinstance(b, so.Bounds):
        lo, hi = np.atleast_1d(b.lb), np.atleast_1d(b.ub)
        b = list(zip(lo.tolist(), hi.tolist()))

    def one(v):
        if v is None or (isinstance(v, float) and math.isinf(v)):
            return 'none'
        return q(v)
    return [[one(l), one(h)] for l, h in b]


def vec(v):
    return [q(x) for x in np.atleast_1d(np.asarray(v, dtype=float)).ravel().tolist()]


def mat(v):
    v = np.asarray(v, dtype=float)
    if v.ndim < 2:
        v = np.atleast_2d(v)
    return [[q(x) for x in row] for row in v.reshape(v.shape[0], -1).tolist()]


def at(f, probes, conv):
    """values of f at the probes; an exception becomes a value of no meaning"""
    out = []
    for p in probes:
        try:
            out.append(conv(f(np.array(p, dtype=float))))
        except Exception as err:            # recorded, judged by the specification
            msg = 'error:' + type(err).__name__
            out.append([[msg]] if conv is mat else [msg])
    return out


def flat(d, prefix=''):
    """nested options as a sorted list of [dotted key, JSON text]"""
    out = []
    for k, v in sorted(d.items(), key=lambda t: str(t[0])):
        if isinstance(v, dict):
            out += flat(v, prefix + str(k) + '.')
        else:
            out.append([prefix + str(k), json.dumps(plain(v))])
    return out


def differs(v, default):
    if v is default:
        return False
    try:
        return not bool(v == default)
    except Exception:
        return True


def norm_constraints(cons, probes):
    if cons is None:
        return []
    if isinstance(cons, (dict, so.NonlinearConstraint, so.LinearConstraint)):
        cons = [cons]
    res = []
    for con in cons:
        r = {}
        if isinstance(con, dict):
            r['type'] = con['type']
            fun, jac, hess = con['fun'], con.get('jac'), None
            extra = tuple(con.get('args', ()))
            if extra:
                f0, j0 = fun, jac
                fun = lambda x, f0=f0: f0(x, *extra)
                jac = (lambda x, j0=j0: j0(x, *extra)) if callable(j0) else j0
        elif isinstance(con, so.NonlinearConstraint):
            lb, ub = float(np.ravel(con.lb)[0]), float(np.ravel(con.ub)[0])
            if lb == ub == 0:
                r['type'] = 'eq'
            elif lb == 0 and ub == np.inf:
                r['type'] = 'ineq'
            else:
                r['type'] = 'range'
            fun, jac, hess = con.fun, con.jac, con.hess
        else:
            r['type'] = 'linear'
            A = np.atleast_2d(con.A)
            fun, jac, hess = (lambda x: A @ x), (lambda x: A), None
        r['fun'] = at(fun, probes, vec)
        r['jac'] = at(jac, probes, vec) if callable(jac) else []
        # the multiplier 2 tells a Hessian scaled by v from one that is not
        r['hess'] = at(lambda x: hess(x, np.array([2.0])), probes, mat) if callable(hess) else []
        res.append(r)
    return res


def plain(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return q(v)
    if isinstance(v, str):
        return v
    if v is None:
        return 'none'
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in sorted(v.items(), key=lambda t: str(t[0]))}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return 'obj:' + type(v).__name__


def kind(v):
    if v is None or v is False:
        return 'none'
    if isinstance(v, str):
        return v
    if isinstance(v, so.HessianUpdateStrategy):
        return 'update'
    return 'callable' if callable(v) else 'obj:' + type(v).__name__


def record(name, b, script):
    probes = CTL.probes
    r = {'api': name, 'script': [], 'ans': [], 'nit': 'none', 'message': ''}
    if name == 'differential_evolution':
        fun = b.pop('func')
        r['x0'] = []
    elif name == 'basinhopping':
        fun = b.pop('func')
        r['x0'] = vec(b.pop('x0'))
    else:
        fun = b.pop('fun')
        r['x0'] = vec(b.pop('x0'))
    r['fun'] = at(fun, probes, vec)
    mk = None
    if name == 'basinhopping':
        mk = dict(b.pop('minimizer_kwargs') or {})
        src = mk
    else:
        src = b
    r['method'] = kind(src.pop('method', None))
    jac, hess = src.pop('jac', None), src.pop('hess', None)
    r['jackind'], r['hesskind'] = kind(jac), kind(hess)
    conv = mat if name == 'least_squares' else vec
    r['jac'] = at(jac, probes, conv) if callable(jac) else []
    r['hess'] = at(hess, probes, mat) if callable(hess) and not isinstance(hess, so.HessianUpdateStrategy) else []
    bnd = src.pop('bounds', None)
    if name == 'least_squares' and bnd is not None:
        lo, hi = bnd if not isinstance(bnd, so.Bounds) else (bnd.lb, bnd.ub)
        n = len(r['x0'])
        bnd = list(zip(np.broadcast_to(lo, n).tolist(), np.broadcast_to(hi, n).tolist()))
    r['bounds'] = norm_bounds(bnd)
    r['cons'] = norm_constraints(src.pop('constraints', None), probes)
    opts = {k: v for k, v in b.items()
            if k not in ('args', 'kwargs', 'callback', 'hessp') and v is not None
            and (k not in SIGS[name].parameters or differs(v, SIGS[name].parameters[k].default))}
    r['opts'] = flat(opts)
    r['defs'] = flat({k: p.default for k, p in SIGS[name].parameters.items()
                      if isinstance(p.default, (bool, int, float, str, tuple))})
    r['mkopts'] = flat(mk or {})
    return r, fun


def note(rec, name, meth, res):
    """what the optimiser answered"""
    rec['ans'] = vec(res.x)
    if name == 'least_squares':
        nit = None
    elif name == 'minimize' and meth == 'cobyla':
        nit = res['nfev']
    elif name == 'minimize' and meth == 'trust-constr':
        nit = res['niter']
    else:
        nit = res['nit']
    rec['nit'] = 'none' if nit is None else q(nit)
    msg = res['message']
    if isinstance(msg, list):
        msg = msg[0]
    rec['message'] = msg.decode() if isinstance(msg, bytes) else str(msg)
    low = rec['message'].lower()
    rec['ranout'] = 'maximum number' in low or 'exceeded' in low


def wrapper(name):
    def f(*args, **kwargs):
        if not CTL.active or CTL.depth:
            return REAL[name](*args, **kwargs)
        CTL.depth += 1
        try:
            ba = SIGS[name].bind(*args, **kwargs)
            b = dict(ba.arguments)
            idx = len(CTL.calls)
            rec, fun = record(name, dict(b), CTL.script)
            CTL.calls.append(rec)
            meth = str(b.get('method', '')).lower()
            if CTL.script is None:
                res = REAL[name](*args, **kwargs)
                note(rec, name, meth, res)
                return res
            sc = CTL.script[idx] if idx < len(CTL.script) else CTL.script[-1]
            x = np.array(sc['x'], dtype=float)
            rec['script'] = [q(v) for v in x.tolist()]
            if CTL.mut is not None:
                CTL.mut(sc)
            val = fun(x)
            res = so.OptimizeResult(x=x, success=True, status=0, nfev=sc.get('nfev', 5), njev=2)
            res['message'] = sc.get('message', 'scripted')
            if name == 'least_squares':
                res['fun'] = np.asarray(val)
                res['cost'] = 0.5 * float(np.sum(np.asarray(val) ** 2))
            else:
                res['fun'] = val
                if name == 'minimize' and meth == 'trust-constr':
                    res['niter'] = sc['nit']
                    res['nit'] = sc['nit']
                elif name == 'minimize' and meth == 'cobyla':
                    res['nfev'] = sc['nit']
                else:
                    res['nit'] = sc['nit']
                if name == 'basinhopping':
                    res['message'] = [sc.get('message', 'scripted')]
                    res['minimization_failures'] = 0
                    res['lowest_optimization_result'] = so.OptimizeResult(x=x, fun=val)
            note(rec, name, meth, res)
            return res
        finally:
            CTL.depth -= 1
    f.__name__ = name
    f.__doc__ = REAL[name].__doc__
    f.__signature__ = SIGS[name]
    return f


# the integrator of differential equations: settings are recorded
import scipy.integrate as _si
REAL_IVP = _si.solve_ivp
IVP_SIG = inspect.signature(REAL_IVP)
IVP = []


def solve_ivp(*args, **kwargs):
    b = dict(IVP_SIG.bind(*args, **kwargs).arguments)
    b.update(b.pop('options', {}))
    rec = [[k, 'true' if v is True else 'false' if v is False else str(plain(v))] for k, v in sorted(b.items())
           if isinstance(v, (bool, int, float, str, np.floating, np.integer))]
    if rec not in IVP:
        IVP.append(rec)
    return REAL_IVP(*args, **kwargs)


solve_ivp.__signature__ = IVP_SIG
_si.solve_ivp = solve_ivp

for _n in NAMES:
    setattr(so, _n, wrapper(_n))


def start(script, probes, mut=None):
    CTL.active, CTL.script, CTL.calls, CTL.probes, CTL.mut = True, script, [], probes, mut


def stop():
    CTL.active = False
    return CTL.calls
