"""Replays scenarios (sequences of operations) into the real symfit and records
what it did.  Nothing here judges: every event gets an `obs` field which the
specification (spec/Trace.tla) decides."""
import sys, os, pickle, re, signal, warnings, copy
import numpy as np
warnings.simplefilter('ignore')
np.seterr(all='ignore')
import hook
import sympy
import symfit
from symfit import (Parameter, Variable, parameters, variables, Model, CallableModel,
                    GradientModel, ODEModel, D, Fit, Eq, Ge, Le)
from symfit.core.models import HessianModel, CallableNumericalModel, BaseModel, ModelOutput
import symfit.core.minimizers as mzs
import symfit.core.objectives as objs
from symfit.core.support import cached_property, key2str
from enc import q, arr, unq, unarr, to_sympy, evalf, syms

KINDS = dict(Model=Model, CallableModel=CallableModel, GradientModel=GradientModel,
             HessianModel=HessianModel, Matrix=CallableModel)
RELS = dict(eq=sympy.Eq, ge=sympy.Ge, le=sympy.Le, gt=sympy.Gt, lt=sympy.Lt, ne=sympy.Ne)


class GradientNumericalModel(CallableNumericalModel, symfit.core.models.BaseGradientModel):
    """Callable model with the inherited finite-difference Jacobian."""


KINDS_NUM = dict(CallableNumericalModel=CallableNumericalModel,
                 GradientNumericalModel=GradientNumericalModel)


class CustomCallable:
    """A picklable user objective: a plain callable of keyword parameters."""
    def __init__(self, expr, names):
        self.expr, self.names = expr, names

    def __call__(self, **kw):
        if set(kw) != set(self.names):
            raise TypeError('expected %s got %s' % (self.names, sorted(kw)))
        return evalf(self.expr, kw)

    def __eq__(self, other):
        return isinstance(other, CustomCallable) and self.expr == other.expr and self.names == other.names

    __hash__ = object.__hash__


class CustomGradient:
    """A picklable user Jacobian of a plain callable objective."""
    def __init__(self, exprs, names):
        self.exprs, self.names = exprs, names

    def __call__(self, **kw):
        return np.array([evalf(x, kw) for x in self.exprs])

    __hash__ = object.__hash__


class Component:
    """A picklable callable component with a fixed set of argument names."""
    def __init__(self, expr, names):
        self.expr, self.names = expr, tuple(names)
        self.seen = None

    def __call__(self, *args, **kw):
        vals = dict(zip(self.names, args))
        if len(args) > len(self.names) or set(vals) & set(kw):
            raise TypeError('arguments')
        vals.update(kw)
        if set(vals) != set(self.names):
            raise TypeError('expected %s got %s' % (self.names, sorted(vals)))
        return evalf(self.expr, vals)

    def __eq__(self, other):
        return isinstance(other, Component) and self.expr == other.expr and self.names == other.names

    __hash__ = object.__hash__


def errobs(err):
    return {'err': type(err).__name__, 'msg': str(err)[:200]}


def data_in(d):
    """Data description to the Python object handed to symfit."""
    k = d['k']
    if k == 'none':
        return None
    if k == 'num':
        v = unq(d['v'])
        if d.get('as') == 'int':
            return int(v)
        if d.get('as') == 'npf':
            return np.float64(v)
        return v
    a = unarr(d)
    form = d.get('as', 'array')
    if form == 'list':
        return a.tolist()
    if form == 'tuple':
        return tuple(a.tolist())
    if form == 'int':
        return a.astype(int)
    if form == 'f32':
        return a.astype(np.float32)
    if form == 'ro':
        a.setflags(write=False)
    return a


def data_out(v):
    if v is None:
        return {'k': 'none'}
    a = arr(v)
    a['k'] = 'arr'
    return a


def out_arrays(output, names):
    return [[n, arr(v)] for n, v in zip(names, output)]


class Session:
    def __init__(self, sc):
        self.sc = sc
        self.sym = {}
        self.obj = {}
        self.user = {}     # user supplied arrays by (event, name)
        self.blobs = {}      # pickled objects

    def look(self, n):
        if n not in self.sym:
            self.sym[n] = Variable(n)
        return self.sym[n]

    def expr(self, e):
        return to_sympy(e, self.look)

    def step(self, e):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                del hook.IVP[:]
                e['obs'] = getattr(self, 'op_' + e['op'])(e)
                if hook.IVP:
                    e['obs']['ivp'] = list(hook.IVP)
            e['obs'].setdefault('err', '')
        except Exception as err:
            if os.environ.get('DRIVER_DEBUG'):
                import traceback
                traceback.print_exc()
            e['obs'] = errobs(err)

    def run(self):
        for e in self.sc['ev']:
            if 'fresh' not in e:        # those are performed later in another interpreter
                self.step(e)
        return self.sc

    # -- parameters ---------------------------------------------------------
    def opt(self, v):
        return None if v == 'none' else unq(v)

    def psnap(self, names=None):
        res = []
        for n, p in sorted(self.sym.items()):
            if isinstance(p, Parameter):
                res.append([n, self.pattr(p)])
        return res

    def pattr(self, p):
        def get(a):
            try:
                v = getattr(p, a)
            except AttributeError:
                return 'missing'
            if v is None:
                return 'none'
            if isinstance(v, (bool, np.bool_)):
                return 'true' if v else 'false'
            return q(v)
        return {'name': p.name, 'value': get('value'), 'min': get('min'), 'max': get('max'),
                'fixed': get('fixed')}

    def op_param(self, e):
        kw = {}
        for k in ('value', 'min', 'max'):
            if k in e and e[k] != 'default':
                kw[k] = self.opt(e[k])
        if 'fixed' in e:
            kw['fixed'] = e['fixed'] == 'true'
        if e.get('posvalue'):
            p = Parameter(e['n'], kw.pop('value'), **kw)
        else:
            p = Parameter(e['n'], **kw)
        self.sym[e['n']] = p
        return {'attr': self.pattr(p)}

    def op_var(self, e):
        v = Variable(e['n'])
        self.sym[e['n']] = v
        return {'name': v.name}

    def op_msym(self, e):
        """a matrix symbol; its dimensions are numbers or integer symbols"""
        def dim(n):
            if isinstance(n, int):
                return n
            return self.sym.setdefault(n, sympy.Symbol(n, integer=True))
        v = sympy.MatrixSymbol(e['n'], dim(e['sh'][0]), dim(e['sh'][1]))
        self.sym[e['n']] = v
        return {'name': v.name}

    def op_params(self, e):
        """bulk creation"""
        conv = {k: self.opt for k in ('value', 'min', 'max')}
        conv['fixed'] = lambda v: v == 'true'
        kw = {k: conv[k](v) for k, v in e['scal']}
        kw.update({k: self.bulk(v, conv[k]) for k, v in e['seqs']})
        ps = parameters(e['names'], **kw)
        for p in ps:
            self.sym[p.name] = p
        return {'got': [[p.name, self.pattr(p)] for p in ps]}

    def bulk(self, v, conv):
        vals = [conv(x) for x in v['seq']]
        form = v.get('as', 'list')
        if form == 'array':
            return np.array(vals)
        if form == 'tuple':
            return tuple(vals)
        if form == 'iter':
            return iter(vals)
        return vals

    def op_vars(self, e):
        vs = variables(e['names'])
        for v in vs:
            self.sym[v.name] = v
        return {'got': [v.name for v in vs], 'isvar': all(isinstance(v, Variable) for v in vs)}

    def op_anon(self, e):
        """unnamed symbols"""
        cls = Parameter if e['cls'] == 'Parameter' else Variable
        kw = {'value': unq(e['value'])} if 'value' in e else {}
        got = [cls(**kw) for _ in range(e['k'])]
        for p in got:
            self.obj['anon:' + p.name] = p
        return {'names': [p.name for p in got],
                'values': [self.pattr(p)['value'] for p in got] if cls is Parameter else [],
                'ident': all(p.name.isidentifier() for p in got)}

    def op_setp(self, e):
        p = self.sym[e['n']]
        if e['a'] == 'fixed':
            p.fixed = e['v'] == 'true'
        else:
            setattr(p, e['a'], self.opt(e['v']))
        return {'attr': self.pattr(p)}

    def op_getp(self, e):
        return {'attr': self.pattr(self.sym[e['n']])}

    def op_psnap(self, e):
        return {'snap': self.psnap()}

    def op_peq(self, e):
        a, b = self.sym[e['x']], self.sym[e['y']]
        return {'eq': bool(a == b), 'ne': bool(a != b), 'hash': hash(a) == hash(b)}

    def op_peqattr(self, e):
        """two distinct objects (sympy's own cache is cleared in between)"""
        from sympy.core.cache import clear_cache

        def make(n, a, cls):
            if cls == 'Variable':
                return Variable(n)
            return Parameter(n, self.opt(a['value']), min=self.opt(a['min']), max=self.opt(a['max']),
                             fixed=a['fixed'] == 'true')
        a = make(e['n'], e['a'], 'Parameter')
        clear_cache()
        b = make(e['m'], e['b'], e['cb'])
        return {'eq': bool(a == b), 'ne': bool(a != b), 'hash': hash(a) == hash(b), 'distinct': a is not b,
                'sym': bool(b == a), 'self': bool(a == a) and hash(a) == hash(a)}

    # -- models -------------------------------------------------------------
    @staticmethod
    def dist_expr(d, look):
        """a component built from the library distributions"""
        import symfit.distributions as ds
        x = sympy.Integer(0)
        for k, (name, a) in enumerate(d['dist']):
            t = getattr(ds, name)(*[look(n) for n in a])
            if d['w']:
                t = look(d['w'][k]) * t
            x = x + t
        return x

    def op_model(self, e):
        kind = e['kind']
        defs = [(d['n'], d) for d in e['defs']]
        if kind == 'ODE':
            m = self.build_ode(e)
        elif kind in KINDS_NUM:
            md, cm = {}, {}
            for n, d in defs:
                v = self.look(n)
                if d.get('impl') == 'py':
                    names = d['args']
                    md[v] = Component(d['e'], names)
                    cm[v] = {self.look(x) for x in d['dep']}
                else:
                    md[v] = self.expr(d['e'])
                    if 'dep' in d:
                        cm[v] = {self.look(x) for x in d['dep']}
            m = KINDS_NUM[kind](md, connectivity_mapping=cm)
        else:
            form = e.get('form', 'dict')
            if form == 'dict':
                m = KINDS[kind]({self.look(n): self.dist_expr(d, self.look) if 'dist' in d else self.expr(d['e'])
                                 for n, d in defs})
            elif form == 'list':
                m = KINDS[kind]([self.expr(d['e']) for n, d in defs])
            else:
                m = KINDS[kind](self.expr(defs[0][1]['e']))
        self.obj[e['id']] = m
        return self.model_obs(m)

    def build_ode(self, e):
        t = self.look(e['t'])
        md = {D(self.look(d['n']), t): self.expr(d['e']) for d in e['defs']}
        initial = {}
        for n, v in e['initial']:
            initial[self.look(n)] = self.look(v['p']) if 'p' in v else unq(v['v'])
        kw = {k: (unq(v) if k in ('rtol', 'atol', 'max_step', 'first_step') else v)
              for k, v in e.get('opts', {}).items()}
        return ODEModel(md, initial=initial, **kw)

    def model_obs(self, m):
        o = {'kind': type(m).__name__,
             'indep': [v.name for v in m.independent_vars],
             'dep': [v.name for v in m.dependent_vars],
             'inter': [v.name for v in m.interdependent_vars],
             'params': [p.name for p in m.params],
             'ispar': all(isinstance(p, Parameter) for p in m.params),
             'sig': list(m.__signature__.parameters) if hasattr(m, '__signature__') else [],
             'sigmas': [[v.name, m.sigmas[v].name] for v in m.dependent_vars],
             'vars': [v.name for v in m.vars],
             'iter': [v.name for v in m],
             'len': len(m),
             'free': [p.name for p in m.free_params]}
        try:
            o['bounds'] = [['none' if b is None else q(b) for b in pair] for pair in m.bounds]
        except Exception as err:
            o['bounds'] = []
        try:
            o['shared'] = bool(m.shared_parameters)
        except Exception as err:
            o['shared'] = 'error:' + type(err).__name__
        if hasattr(m, 'constraint_type'):
            o['ctype'] = m.constraint_type.__name__
        if isinstance(m, ODEModel):
            o['iopts'] = hook.plain(m.integrator_kwargs)
        return o

    def argval(self, d):
        return data_in(d)

    def call_args(self, e):
        return ([self.argval(v) for v in e.get('pos', [])],
                {n: self.argval(v) for n, v in e.get('kw', [])})

    def op_call(self, e):
        m = self.obj[e['m']]
        a, k = self.call_args(e)
        out = m(*a, **k)
        names = [v.name for v in m]
        o = {'names': names,
             'asdict': [[v.name, arr(x)] for v, x in out._asdict().items()],
             'idx': [arr(out[i]) for i in range(len(out))],
             'iter': [arr(x) for x in out],
             'attr': [arr(getattr(out, n)) for n in names],
             'unch': [self.unchanged(a, e.get('pos', [])), self.unchanged([k[n] for n, _ in e.get('kw', [])],
                                                                         [v for _, v in e.get('kw', [])])],
             'rep': repr(out).startswith('ModelOutput(variables=')}
        try:
            o['byvar'] = [arr(out[v]) for v in m]
        except Exception as err:
            o['byvar'] = []
        if e.get('pick'):
            o2 = pickle.loads(pickle.dumps(out))
            o['pick'] = [[v.name, arr(x)] for v, x in o2._asdict().items()]
            o['pickidx'] = [arr(o2[i]) for i in range(len(o2))]
        return o

    def unchanged(self, objs_, descr):
        for v, d in zip(objs_, descr):
            if isinstance(v, np.ndarray) and not np.array_equal(np.asarray(v, float), unarr(d)):
                return False
        return True

    def op_jac(self, e):
        return self.deriv(e, 'eval_jacobian')

    def op_hess(self, e):
        return self.deriv(e, 'eval_hessian')

    def op_fd(self, e):
        m = self.obj[e['m']]
        a, k = self.call_args(e)
        if 'dx' in e:
            k['dx'] = unq(e['dx'])
        out = m.finite_difference(*a, **k)
        return {'out': [[v.name, arr(x)] for v, x in zip(m, out)], 'snap': self.psnap()}

    def deriv(self, e, what):
        m = self.obj[e['m']]
        a, k = self.call_args(e)
        out = getattr(m, what)(*a, **k)
        return {'out': [[v.name, arr(x)] for v, x in zip(m, out)],
                'asdict': [[v.name, arr(x)] for v, x in out._asdict().items()]}

    def op_symjac(self, e):
        """Evaluate the symbolic Jacobian / Hessian at a point, replacing defined
        variables and their partial derivatives by their own values."""
        m = self.obj[e['m']]
        vals = {self.look(n): to_sympy({'o': 'c', 'v': v}, None) for n, v in e['at']}
        order = [s for s in m.ordered_symbols if s in m]
        jac = m.jacobian
        names = [v.name for v in m]
        J, H, env = {}, {}, dict(vals)
        pos = {v: i for i, v in enumerate(m)}

        def ev(x):
            x = sympy.sympify(x)
            x = x.xreplace({d: env[d] for d in x.atoms(sympy.Derivative) if d in env})
            x = x.xreplace({s_: env[s_] for s_ in x.free_symbols if s_ in env})
            return sympy.N(x, 30)
        for v in order:
            env[v] = ev(m[v])
            for i, p in enumerate(m.params):
                val = ev(jac[pos[v]][i])
                J[v, i] = val
                env[D(v, p)] = val
            if e.get('hess'):
                hess = m.hessian
                for i, p in enumerate(m.params):
                    for j, r in enumerate(m.params):
                        val = ev(hess[pos[v]][i][j])
                        H[v, i, j] = val
                        env[D(v, p, r)] = val
                        env[D(v, r, p)] = val

        def num(x):
            return q(float(x)) if x.is_number else 'nan'
        n = len(m.params)
        o = {'out': [[v.name, {'sh': [n], 'd': [num(J[v, i]) for i in range(n)]}] for v in m]}
        if e.get('hess'):
            o['hess'] = [[v.name, {'sh': [n, n], 'd': [num(H[v, i, j]) for i in range(n) for j in range(n)]}]
                         for v in m]
        return o

    def op_neg(self, e):
        m = self.obj[e['m']]
        before = type(m).__name__
        m2 = -m
        self.obj[e['id']] = m2
        o = self.model_obs(m2)
        o['same'] = type(m2) is type(m)
        o['distinct'] = m2 is not m
        return o

    def op_mobs(self, e):
        return self.model_obs(self.obj[e['m']])

    def op_meq(self, e):
        return self.compare(e)

    OTHERS = {'int': 3, 'none': None, 'str': 'm', 'dict': {}, 'list': [], 'array': ('m',)}

    def compare(self, e):
        x = self.obj[e['x']]
        if e.get('sym'):
            y = self.OTHERS[e['y']]
        else:
            y = self.obj[e['y']]
        if e['op'] == 'oeq':
            x, y = (v.objective if isinstance(v, Fit) else v for v in (x, y))
        res = [x == y, y == x, x != y]
        if not all(isinstance(v, (bool, np.bool_)) for v in res):
            raise TypeError('not a truth value')
        return {'eq': bool(res[0]), 'rev': bool(res[1]), 'ne': bool(res[2])}

    def op_oeq(self, e):
        return self.compare(e)

    def op_con(self, e):
        m = self.obj[e['m']]
        cls = CallableModel if isinstance(m, CallableNumericalModel) else type(m)
        if e.get('form') == 'dict':
            expr = self.expr(e['lhs']) - self.expr(e['rhs'])
            con = cls.as_constraint({self.look(e['cn']): expr}, m, constraint_type=RELS[e['rel']])
        elif e.get('form') == 'two':
            con = cls.as_constraint({self.look('cq1'): self.expr(e['lhs']), self.look('cq2'): self.expr(e['rhs'])},
                                    m, constraint_type=RELS[e['rel']])
        else:
            r = self.relation(e)
            con = cls.as_constraint(r, m)
        self.obj[e['id']] = con
        o = self.model_obs(con)
        auto = [v for v in con if v.name not in [x['n'] for x in self.sc.get('alldefs', [])]]
        o['con'] = [v.name for v in con.dependent_vars]
        o['comps'] = [v.name for v in con]
        return o

    def op_concall(self, e):
        """value, Jacobian and Hessian of a constraint model at a point"""
        con = self.obj[e['c']]
        k = {n: self.argval(v) for n, v in e['kw']}
        out = con(**k)
        dv = con.dependent_vars[0]
        o = {'val': arr(out._asdict()[dv])}
        if hasattr(con, 'eval_jacobian'):
            o['jac'] = arr(con.eval_jacobian(**k)._asdict()[dv])
        if hasattr(con, 'eval_hessian'):
            o['hess'] = arr(con.eval_hessian(**k)._asdict()[dv])
        return o

    def op_exprcall(self, e):
        x = self.expr(e['e'])
        a, k = self.call_args(e)
        return {'out': arr(x(*a, **k))}

    # -- fits ---------------------------------------------------------------
    def minimizer(self, name):
        if name == 'none':
            return None
        if isinstance(name, list):
            return [self.minimizer(n) for n in name]
        return getattr(mzs, name)

    def relation(self, con):
        l, r = self.expr(con['lhs']), self.expr(con['rhs'])
        x = RELS[con['rel']](l, r)
        if not isinstance(x, sympy.core.relational.Relational):     # decided by sympy
            x = RELS[con['rel']](l, r, evaluate=False)
        return x

    def op_fit(self, e):
        if 'm' in e:
            m = self.obj[e['m']]
        else:
            m = {self.look(d['n']): self.expr(d['e']) for d in e['defs']}
            if e.get('form') == 'scalar':
                m = self.expr(e['defs'][0]['e'])
        args = [data_in(d) for d in e.get('args', [])]
        kw = {n: data_in(d) for n, d in e.get('kw', [])}
        if e.get('share'):      # the same array object for several variables
            n0, n1 = e['share']
            kw[n1] = kw[n0]
        self.user[e['id']] = (args, kw)
        opts = {}
        if e['objective'] != 'none':
            ob = e['objective']
            if ob == 'callable':
                opts['objective'] = CustomCallable(e['cexpr'], e['cnames'])
            elif ob == 'instance':
                opts['objective'] = self.obj[e['oid']]
            else:
                opts['objective'] = getattr(objs, ob)
        if e['mz']:
            mz = [self.minimizer(n) for n in e['mz']]
            opts['minimizer'] = mz if e['chain'] else mz[0]
        if e.get('cons'):
            opts['constraints'] = [self.obj[c_['id']] if 'id' in c_ else self.relation(c_)
                                   for c_ in e['cons']]
        if e['abs'] != 'none':
            opts['absolute_sigma'] = e['abs'] == 'true'
        before = self.user_state(e['id'])
        fit = Fit(m, *args, **opts, **kw)
        self.obj[e['id']] = fit
        o = self.fit_obs(fit)
        o['userok'] = self.user_state(e['id']) == before
        o['optsame'] = not e['mz'] or not e['chain'] or mz == [self.minimizer(n) for n in e['mz']]
        o['snap'] = self.psnap()
        return o

    def fit_obs(self, fit):
        data = []
        for k, v in fit.data.items():
            name = k.name if hasattr(k, 'name') else str(k)
            data.append([name, data_out(v), 'sym' if hasattr(k, 'name') else 'str'])
        mz = fit.minimizer
        o = {'data': data,
             'absig': bool(fit.absolute_sigma),
             'dep': [[v.name, data_out(x)] for v, x in fit.dependent_data.items()],
             'ind': [[v.name, data_out(x)] for v, x in fit.independent_data.items()],
             'sgm': [[v.name, data_out(x)] for v, x in fit.sigma_data.items()],
             'objective': type(fit.objective).__name__,
             'minimizer': [type(x).__name__ for x in mz.minimizers] if hasattr(mz, 'minimizers')
             else [type(mz).__name__],
             'chain': hasattr(mz, 'minimizers'),
             'guess': [q(v) for v in mz.initial_guesses],
             'ncons': len(fit.constraints),
             'con': [[v.name for v in c_.dependent_vars] for c_ in fit.constraints],
             'mindep': [v.name for v in fit.model.independent_vars],
             'mdep': [v.name for v in fit.model.dependent_vars]}
        return o

    def op_fitobs(self, e):
        o = self.fit_obs(self.obj[e['f']])
        o.update(userok=True, optsame=True, snap=self.psnap())
        return o

    def op_userdata(self, e):
        args, kw = self.user[e['f']]
        return {'args': [data_out(v) for v in args], 'kw': [[n, data_out(v)] for n, v in kw.items()]}

    def op_mkobj(self, e):
        """an objective built directly from model and data"""
        m = self.obj[e['m']]
        data = {}
        for n, d in e['data']:
            data[self.look(n)] = data_in(d)
        self.obj[e['id']] = getattr(objs, e['cls'])(m, data)
        return {}

    def op_obj(self, e):
        f = self.obj[e['f']]
        ob = f.objective if isinstance(f, Fit) else f
        if e.get('style') == 'kw':
            a, k = [], {n: unq(v) for n, v in e['kw']}
        elif e.get('style') == 'mixed':
            a, k = [[unq(v) for v in e['at']]], {n: unq(v) for n, v in e['kw']}
        else:
            a, k = [np.array([unq(v) for v in e['at']])], {}
        w = e['what']
        if w == 'val':
            r = ob(*a, **k)
        elif w == 'comp':
            r = ob(*a, flatten_components=False, **k)
            if isinstance(r, (list, tuple)) or isinstance(ob, objs.LeastSquares):
                return {'out': arr([float(np.asarray(x).item()) for x in r]), 'isnone': False}
        elif w == 'jac':
            r = ob.eval_jacobian(*a, **k)
        else:
            r = ob.eval_hessian(*a, **k)
        if r is None:
            return {'out': {'sh': [0], 'd': []}, 'isnone': True}
        return {'out': arr(r), 'isnone': False}

    def op_mini(self, e):
        """a minimiser used without Fit"""
        ps = [self.sym[n] for n in e['params']]
        if 'oid' in e:
            ob = self.obj[e['oid']]
        elif 'm' in e:
            ob = self.obj[e['m']]
        else:
            ob = CustomCallable(e['cexpr'], e['cnames'])
        kw = {}
        if e['jac']:
            kw['jacobian'] = ob.eval_jacobian if 'oid' in e else CustomGradient(e['cgrad'], e['cnames'])
        if e['cls'] == 'BasinHopping':
            kw['local_minimizer'] = getattr(mzs, e['local'])
        mz = getattr(mzs, e['cls'])(ob, ps, **kw)
        self.obj[e['id']] = mz
        return {'guess': [q(v) for v in mz.initial_guesses]}

    def op_exec(self, e):
        fit = self.obj[e['f']]
        sc = None
        if e['script']:
            sc = [dict(x=[unq(v) for v in s_['x']], nit=s_.get('nit', 3), message=s_.get('message', 'scripted'))
                  for s_ in e['script']]
        probes = [[unq(v) for v in p] for p in e['probes']]
        opts = self.exec_opts(e['opts'])
        keep = copy.deepcopy(opts)
        if e['seed'] != 'none':
            np.random.seed(int(e['seed']))
        before = self.user_state(e['f'])
        hook.start(sc, probes)
        try:
            res = fit.execute(**opts)
        finally:
            calls = hook.stop()
        self.obj[e['id']] = res
        return {'calls': calls, 'res': self.res_obs(res), 'snap': self.psnap(),
                'optsame': hook.plain(opts) == hook.plain(keep), 'given': hook.flat(keep),
                'userok': self.user_state(e['f']) == before}

    def user_state(self, f):
        """the arrays handed over by the user, byte by byte"""
        args, kw = self.user.get(f, ([], {}))
        return [repr(v) if not isinstance(v, np.ndarray) else (v.dtype.str, v.shape, v.tobytes())
                for v in args + [kw[k] for k in sorted(kw)]]

    def exec_opts(self, o):
        def conv(v):
            if isinstance(v, dict):
                if set(v) == {'num'}:
                    return unq(v['num'])
                if set(v) == {'int'}:
                    return int(v['int'])
                if set(v) == {'mz'}:
                    return v['mz']
                return {k: conv(x) for k, x in v.items()}
            return v
        return {k: conv(v) for k, v in o.items()}

    def res_obs(self, res):
        model = res.model
        ps = list(model.params)
        def maybe(f):
            try:
                v = f()
            except Exception as err:
                return 'error:' + type(err).__name__
            return 'none' if v is None else q(v)
        cov = res.covariance_matrix
        o = {'params': [[n, q(v)] for n, v in res.params.items()],
             'value': [maybe(lambda: res.value(p)) for p in ps],
             'variance': [maybe(lambda: res.variance(p)) for p in ps],
             'stdev': [maybe(lambda: res.stdev(p)) for p in ps],
             'hascov': cov is not None,
             'cov': [] if cov is None else hook.mat(cov),
             'covget': [[maybe(lambda: res.covariance(p, r)) for r in ps] for p in ps],
             'gof': [[k, arr(v)] for k, v in sorted(res.gof_qualifiers.items())],
             'gofattr': [[k, arr(getattr(res, k))] for k in sorted(res.gof_qualifiers)],
             'status': str(res.status_message),
             'nit': 'none' if res.iterations is None else q(res.iterations),
             'objective': type(res.objective).__name__,
             'minimizer': type(res.minimizer).__name__,
             'ncons': len(res.constraints)}
        o['nogof'] = [k for k in ('r_squared', 'chi_squared', 'log_likelihood', 'likelihood')
                      if not hasattr(res, k)]
        if res.constraints:
            o['conval'] = [arr(np.ravel(c_(**key2str(res.params)))) if hasattr(c_, 'model') else {'sh': [0], 'd': []}
                           for c_ in res.constraints]
        return o

    def op_res(self, e):
        """observe a stored result again"""
        return {'res': self.res_obs(self.obj[e['r']])}

    def op_resstr(self, e):
        """the printed result, taken apart"""
        res = self.obj[e['r']]
        text = str(res)
        o = {'rows': [], 'status': '', 'nit': '', 'gof': [], 'cons': [], 'minimizer': False, 'objective': False}
        head, _, rest = text.partition('Goodness of fit qualifiers:')
        gof, _, cons = rest.partition('Constraints:')
        intable = False
        for line in head.splitlines():
            if line.startswith('Parameter'):
                intable = True
            elif line.startswith('Status message'):
                intable = False
                o['status'] = line[len('Status message'):].strip()
            elif line.startswith('Number of iterations'):
                v = line[len('Number of iterations'):].strip()
                o['nit'] = 'none' if v == 'None' else q(float(v))
            elif line.startswith('Objective'):
                o['objective'] = type(res.objective).__name__ in line
            elif line.startswith('Minimizer'):
                o['minimizer'] = type(res.minimizer).__name__ in line
            elif intable and line.strip():
                t = line.split()
                o['rows'].append([t[0]] + ['none' if x == 'None' else q(float(x)) for x in t[1:3]])
        cur = None
        for t in gof.replace('[', ' ').replace(']', ' ').split():
            if t in res.gof_qualifiers:
                cur = [t, []]
                o['gof'].append(cur)
            elif cur:
                cur[1].append(q(float(t)))
        at = {n: to_sympy({'o': 'c', 'v': v}, None) for n, v in e['at']}
        item = None
        for line in re.sub(r'\n(?! *(?:Question|Answer):)', ' ', cons).splitlines():
            line = line.strip()
            if line.startswith('Question:'):
                body = line[len('Question:'):].strip()
                for rel in ('==', '>=', '<=', '!=', '>', '<'):
                    if body.endswith(' %s 0?' % rel):
                        item = {'rel': rel, 'ask': self.text_value(body[:-len(' %s 0?' % rel)], at), 'ans': []}
                        o['cons'].append(item)
                        break
            elif line.startswith('Answer:') and item:
                ans = line[len('Answer:'):].replace('[', ' ').replace(']', ' ').split()
                item['ans'] = [q(float(x)) for x in ans]
        o['snap'] = self.psnap()
        return o

    def text_value(self, text, at):
        """value of an expression given as text at a point (by name)"""
        if ' object at 0x' in text or text.startswith('<'):
            return 'none'
        # python normalises the identifiers it parses: give them plain stand-ins
        std = {n: 'at_%d_' % i for i, n in enumerate(at)}
        text = re.sub(r'(?<![\w.])[^\W\d]\w*', lambda g: std.get(g.group(), g.group()), text)
        loc = {std[n]: sympy.Symbol(std[n], real=True) for n in at}
        x = sympy.sympify(text, locals=loc)
        x = x.xreplace({loc[std[n]]: v for n, v in at.items()})
        return q(float(sympy.N(x, 30))) if x.is_number else 'nan'

    def op_mstr(self, e):
        """the printed model, taken apart"""
        m = self.obj[e['m']]
        at = {n: to_sympy({'o': 'c', 'v': v}, None) for n, v in e['at']}
        comp = []
        for line in str(m).replace('\r', '').split('\n'):
            line = line.strip()
            if isinstance(m, ODEModel):
                g = re.match(r'Derivative\((\w+), (\w+)\s*;(.*?)\) = (.*)$', line)
                if not g:
                    continue
                n, vs, ps, x = g.groups()
            else:
                g = re.match(r'\[?(\w+)\(([^;()]*);([^()]*)\) = (.*)$', line)
                if not g:
                    continue
                n, vs, ps, x = g.groups()
                x = x.rstrip(',')
                if x.endswith(']') and not isinstance(m, ODEModel):
                    x = x[:-1]
            sp = lambda t: [y.strip() for y in t.split(',') if y.strip()]
            comp.append({'n': n, 'vars': sp(vs), 'pars': sp(ps), 'val': self.text_value(x, at)})
        return {'comp': comp, 'snap': self.psnap()}

    def op_mcache(self, e):
        """the cached attributes of a model: computed once, reset, never set"""
        m = self.obj[e['m']]
        names = sorted(n for n in dir(type(m)) if isinstance(getattr(type(m), n, None), cached_property))
        if isinstance(m, CallableNumericalModel) or isinstance(m, ODEModel):
            names = [n for n in names if n in ('vars', 'numerical_components')]
        out, vals = [], {}
        for n in names:
            vals[n] = getattr(m, n)
        for n in names:
            r = {'name': n, 'same': getattr(m, n) is vals[n], 'set': ''}
            try:
                setattr(m, n, 1)
            except Exception as err:
                r['set'] = type(err).__name__
            r['same'] = r['same'] and getattr(m, n) is vals[n]
            delattr(m, n)
            delattr(m, n)
            new = getattr(m, n)
            r['reset'] = new is not vals[n] and type(new) is type(vals[n]) and getattr(m, n) is new
            vals[n] = new
            r['other'] = all(getattr(m, k) is vals[k] for k in names)
            out.append(r)
        return {'attrs': out}

    # -- pickling -----------------------------------------------------------
    def op_pickle(self, e):
        """restore a copy in this interpreter and register it under a new handle"""
        what = e['x']
        o = self.sym[what] if e.get('sym') else self.obj[what]
        b = pickle.dumps(o, protocol=e.get('proto', pickle.DEFAULT_PROTOCOL))
        r = pickle.loads(b)
        self.obj[e['id']] = r
        res = {'cls': type(r).__name__, 'same': type(r) is type(o), 'snap': self.psnap()}
        if e.get('sym'):
            self.obj[e['id']] = r
            res['attr'] = self.pattr(r) if isinstance(r, Parameter) else {'name': r.name}
        return res

    def op_dump(self, e):
        """pickle objects to be restored later, here or in a fresh interpreter"""
        blob = pickle.dumps({n: self.obj[n] for n in e['xs']} |
                            {'$' + n: self.sym[n] for n in e['syms']} |
                            {k: v for k, v in self.obj.items() if k.startswith('anon:')},
                            protocol=e.get('proto', pickle.DEFAULT_PROTOCOL))
        self.blobs[e['b']] = blob
        e['anon'] = [k[5:] for k in self.obj if k.startswith('anon:')]
        return {}

    def op_load(self, e):
        loaded = pickle.loads(self.blobs[e['b']])
        for n, k in zip(e['xs'], e['ids']):
            self.obj[k] = loaded[n]
        return {'snap': self.psnap()}

    def op_fsym(self, e):
        """attributes of a restored symbol (fresh interpreter)"""
        p = self.obj['$' + e['n']]
        return {'attr': self.pattr(p) if isinstance(p, Parameter) else {'name': p.name},
                'isvar': isinstance(p, Variable)}

    # -- cached properties --------------------------------------------------
    def op_cprop(self, e):
        box = self.obj.setdefault('cp', CachedBox(e['nobj']))
        return box.step(e)

    # -- interactive guess ----------------------------------------------------
    def op_guess(self, e):
        from symfit.contrib.interactive_guess import InteractiveGuess
        m = self.obj[e['m']]
        kw = {n: data_in(d) for n, d in e['kw']}
        g = InteractiveGuess(m, n_points=e['npts'], **kw)
        self.obj[e['id']] = g
        return self.guess_obs(g)

    def guess_obs(self, g):
        import matplotlib.pyplot as plt
        o = {'snap': self.psnap()}
        sl = []
        for p in g.model.params:
            s_ = g._sliders[p]
            sl.append([p.name, q(s_.val), q(s_.valmin), q(s_.valmax)])
        o['sliders'] = sl
        lines = []
        for (x, y), plot in g._plots.items():
            nd = not hasattr(plot, 'get_xdata')
            if nd:
                line, caps, errs = plot
                segs = [s_.tolist() for s_ in errs[1].get_segments()]
                lines.append({'x': x.name, 'y': y.name, 'nd': True,
                              'xs': [q(v) for v in line.get_xdata()], 'ys': [q(v) for v in line.get_ydata()],
                              'segs': [[[q(v) for v in pt] for pt in s_] for s_ in segs]})
            else:
                lines.append({'x': x.name, 'y': y.name, 'nd': False,
                              'xs': [q(v) for v in plot.get_xdata()], 'ys': [q(v) for v in plot.get_ydata()],
                              'segs': []})
        o['lines'] = lines
        o['grid'] = [[v.name, [q(t) for t in pts]] for v, pts in g._x_points.items()]
        o['guesses'] = []
        for line in str(g).splitlines()[1:]:
            n, _, v = line.partition(':')
            o['guesses'].append([n.strip(), q(float(v))])
        o['scatter'] = []
        if len(g.model.independent_vars) == 1:
            for (x, y), plot in g._plots.items():
                pts = [c_.get_offsets() for c_ in plot.axes.collections]
                if pts:
                    o['scatter'].append({'x': x.name, 'y': y.name, 'xs': [q(float(v)) for v in pts[0][:, 0]],
                                         'ys': [q(float(v)) for v in pts[0][:, 1]]})
        return o

    def op_slide(self, e):
        g = self.obj[e['g']]
        p = [p for p in g.model.params if p.name == e['n']][0]
        g._sliders[p].set_val(unq(e['v']))
        return self.guess_obs(g)

    def op_closeguess(self, e):
        import matplotlib.pyplot as plt
        plt.close(self.obj[e['g']].fig)
        return {}

    # -- distributions --------------------------------------------------------
    def op_dist(self, e):
        import symfit.distributions as ds
        x = getattr(ds, e['name'])(*[self.look(n) for n in e['args']])
        o = {'out': arr(x(**{n: unq(v) for n, v in e['at']}))}
        at = {self.look(k): sympy.Rational(*_pq(v)) for k, v in e['at']}
        o['grad'] = [q(float(sympy.diff(x, self.look(n)).subs(at).evalf(30))) for n in e['grad']]
        return o


def _pq(v):
    from fractions import Fraction
    f = Fraction(v)
    return f.numerator, f.denominator


class CachedBox:
    """Objects with cached attributes whose computation is counted."""
    def __init__(self, n):
        class Host(object):
            def __init__(self, k):
                self.k, self.count, self.fail, self.base = k, dict.fromkeys('pqrz', 0), set(), 0

            def compute(self, a):
                self.count[a] += 1
                if a in self.fail:
                    raise (AttributeError if a == 'q' else ValueError)(a)
                return [self.k, a, self.base, self.count[a]]

            @cached_property
            def p(self):
                return self.compute('p')

            @cached_property
            def q(self):
                return self.compute('q')

            @cached_property
            def r(self):
                return ['r'] + self.q + [self.compute('r')[3]]

            @cached_property
            def z(self):
                self.compute('z')

        class Sub(Host):
            @cached_property
            def p(self):
                return self.compute('p') + ['sub']
        self.objs = [Sub(i) if i == 2 else Host(i) for i in range(n)]
        self.last = {}

    def step(self, e):
        h = self.objs[e['obj']]
        a = e['attr']
        res = {'err': ''}
        try:
            if e['do'] == 'get':
                v = getattr(h, a)
                res['val'] = ['none'] if v is None else [str(x) for x in v]
                key = (e['obj'], a)
                res['ident'] = 'same' if self.last.get(key) is v else 'new'
                self.last[key] = v
            elif e['do'] == 'del':
                delattr(h, a)
            elif e['do'] == 'set':
                setattr(h, a, 1)
            elif e['do'] == 'fail':
                h.fail.add(a)
            elif e['do'] == 'unfail':
                h.fail.discard(a)
            elif e['do'] == 'base':
                h.base += 1
        except Exception as err:
            res['err'] = type(err).__name__
        res['count'] = [h.count[x] for x in 'pqrz']
        return res


def one_fresh(blob, events):
    """restore in this interpreter and go on"""
    s = Session({'ev': events})
    try:
        loaded = pickle.loads(blob)
    except Exception as err:
        for e in events:
            e['obs'] = errobs(err)
        return events
    for k, v in loaded.items():
        s.obj[k] = v
        if k.startswith('$'):
            s.sym[k[1:]] = v
    for e in events:
        s.step(e)
    return events


def run_fresh(jobs):
    """jobs: list of (blob, events); each is run in a fork of this interpreter, in
    which no symbol was ever made"""
    res = []
    for blob, events in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                signal.alarm(100)
                out = pickle.dumps(one_fresh(blob, events))
                with os.fdopen(w, 'wb') as f:
                    f.write(out)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            res.append(pickle.loads(data))
        else:
            for e in events:
                e['obs'] = {'err': 'FreshProcess', 'msg': ''}
            res.append(events)
    return res
