"""Registry of scenario generators."""
from genbase import Gen
import gen_sym as gs
import gen_fit as gf
import gen_ode as go
import gen_sess as gx
import gen_xf as xf
import gen_mat as gm

SCEN = {
    'roles': gs.sc_roles,
    'eval': lambda g: gs.sc_eval(g, ('call',)),
    'evalall': lambda g: gs.sc_eval(g, ('call', 'jac', 'hess')),
    'jac': lambda g: gs.sc_eval(g, ('jac',)),
    'hess': lambda g: gs.sc_eval(g, ('hess',)),
    'fd': gs.sc_fd,
    'symjac': lambda g: gs.sc_symjac(g, False),
    'symhess': lambda g: gs.sc_symjac(g, True),
    'neg': gs.sc_neg,
    'eq': gs.sc_eq,
    'con': gs.sc_con,
    'dname': gs.sc_dname,
    'numeq': xf.sc_numeq,
    'oeq': xf.sc_oeq,
    'exprcall': gs.sc_exprcall,
    'bind': gf.sc_bind,
    'ls': lambda g: gf.sc_obj(g, 'LeastSquares'),
    'vls': lambda g: gf.sc_obj(g, 'VectorLeastSquares'),
    'll': lambda g: gf.sc_obj(g, 'LogLikelihood'),
    'mm': lambda g: gf.sc_obj(g, 'MinimizeModel'),
    'mmrefuse': gf.sc_mmrefuse,
    'script': gf.fit_case,
    'select': lambda g: gf.fit_case(g, runs=1, mut=.2, bound=g.r.choice([0, .2, .6]), fix=g.r.choice([0, .2, .5])),
    'fixed': lambda g: gf.fit_case(g, fix=.6, bound=.3, runs=2),
    'bounds': lambda g: gf.fit_case(g, fix=.15, bound=.9, runs=2, cons=.15),
    'constr': lambda g: gf.fit_case(g, cons=1, style=g.r.choice(['auto', 'local', 'local', 'chain']), runs=1, nprobe=2),
    'chain': lambda g: gf.fit_case(g, style='chain', runs=2, cons=.15),
    'global': lambda g: gf.fit_case(g, style='global', runs=2, cons=.25),
    'cov': lambda g: gf.fit_case(g, runs=2, opts=False, nprobe=0, style=g.r.choice(['auto', 'auto', 'local']),
                                 cls=g.r.choice(['LeastSquares'] * 4 + ['LogLikelihood', 'VectorLeastSquares', 'MinimizeModel'])),
    'hist': lambda g: gf.fit_case(g, runs=4, multi=.6, mut=.6, nprobe=1),
    'callobj': gf.sc_callobj,
    'linfit': gf.sc_linfit,
    'linbnd': lambda g: gf.sc_linfit(g, bound=.9, cons=0, fix=.1, mzs=['', 'SLSQP', 'LBFGSB', 'MINPACK', 'TrustConstr',
                                                                         'BasinHopping', 'DifferentialEvolution', 'chain']),
    'lincon': lambda g: gf.sc_linfit(g, cons=1, bound=.15, fix=.15, mzs=['', '', 'SLSQP', 'COBYLA', 'TrustConstr']),
    'nlfit': gf.sc_nlfit,
    'ode': go.sc_ode,
    'odejac': go.sc_odejac,
    'odefit': go.sc_odefit,
    'matrix': gm.sc_matrix,
    'matcon': gm.sc_matcon,
    'matfit': gm.sc_matfit,
    'symbols': gx.sc_symbols,
    'cprop': gx.sc_cprop,
    'mcache': gx.sc_mcache,
    'dist': gx.sc_dist,
    'distmodel': gx.sc_distmodel,
    'mstr': gx.sc_mstr,
    'resstr': gx.sc_resstr,
    'guess': gx.sc_guess,
}

for _b in ('roles', 'eval', 'jac', 'fd', 'neg', 'con', 'bind', 'ls', 'vls', 'll', 'mm', 'script', 'select', 'fixed', 'bounds',
           'constr', 'chain', 'cov', 'hist', 'global'):
    SCEN['num_' + _b] = xf.sc_numeric(_b)
for _b in ('linfit', 'linbnd', 'lincon', 'nlfit'):
    SCEN['num_' + _b] = xf.sc_numeric(_b, grad=True)
for _b in ('roles', 'eval', 'evalall', 'symhess', 'neg', 'eq', 'con', 'bind', 'ls', 'vls', 'll', 'mm', 'script', 'select', 'constr', 'chain',
           'global', 'cov', 'hist', 'callobj', 'linfit', 'lincon', 'nlfit', 'ode', 'odejac', 'odefit', 'num_eval', 'num_neg',
           'num_script', 'num_linfit', 'mstr', 'resstr', 'oeq', 'numeq', 'matrix', 'matcon', 'matfit'):
    SCEN['pick_' + _b] = xf.sc_pickled(_b, False)
    SCEN['fresh_' + _b] = xf.sc_pickled(_b, True)
    SCEN['load_' + _b] = xf.sc_pickled(_b, 'load')


def make(name, seed):
    g = Gen('%s/%s' % (name, seed))
    for _ in range(20):
        ev = SCEN[name](g)
        if ev:
            if isinstance(ev, dict):
                ev.update(id='%s/%s' % (name, seed))
                return ev
            return {'id': '%s/%s' % (name, seed), 'scen': name, 'ev': ev}
    return None
