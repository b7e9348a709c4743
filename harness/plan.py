"""What each check runs.  scen: (scenario, cases per quick run); mc: model checking runs."""
PLAN = {
    'C01': dict(scen=[('roles', 240), ('con', 30), ('neg', 30)]),
    'C02': dict(scen=[('eval', 240)]),
    'C03': dict(scen=[('jac', 120), ('symjac', 80), ('evalall', 30), ('dname', 40)]),
    'C04': dict(scen=[('hess', 80), ('symhess', 60), ('evalall', 20), ('dname', 40)]),
    'C05': dict(scen=[('fd', 160), ('odejac', 12)]),
    'C06': dict(scen=[('neg', 100), ('eq', 140), ('ode', 16)]),
    'C07': dict(scen=[('con', 240)]),
    'C08': dict(scen=[('ode', 160)]),
    'C09': dict(scen=[('ode', 60), ('odejac', 16), ('odefit', 28)]),
    'C10': dict(scen=[('num_roles', 90), ('num_eval', 50), ('num_jac', 30), ('num_fd', 40), ('num_neg', 40), ('num_con', 30),
                      ('num_bind', 20), ('num_ls', 20), ('num_vls', 14), ('num_ll', 14), ('num_mm', 14), ('num_script', 24),
                      ('num_chain', 12), ('num_cov', 20), ('num_hist', 14), ('num_constr', 20), ('num_global', 10),
                      ('num_linfit', 20), ('num_linbnd', 10), ('num_lincon', 14), ('num_nlfit', 14)]),
    'C11': dict(scen=[('bind', 280)]),
    'C12': dict(scen=[('bind', 200), ('hist', 30)]),
    'C13': dict(scen=[('ls', 240)]),
    'C14': dict(scen=[('vls', 240)]),
    'C15': dict(scen=[('ll', 200)]),
    'C16': dict(scen=[('mm', 160), ('mmrefuse', 16), ('callobj', 80)]),
    'C17': dict(scen=[('fixed', 140), ('script', 60), ('linfit', 40)]),
    'C18': dict(scen=[('bounds', 130), ('linbnd', 100)]),
    'C19': dict(scen=[('constr', 150), ('lincon', 80)]),
    'C20': dict(scen=[('linfit', 200), ('nlfit', 60)]),
    'C21': dict(scen=[('select', 240)]),
    'C22': dict(scen=[('hist', 160), ('script', 60), ('linfit', 40)]),
    'C23': dict(scen=[('chain', 200)]),
    'C24': dict(scen=[('cov', 200)]),
    'C25': dict(scen=[('cov', 80), ('script', 100), ('nlfit', 30), ('ll', 20)]),
    'C31': dict(scen=[('global', 180), ('callobj', 60)]),
    'C26': dict(scen=[('pick_' + b, n) for b, n in (
        ('roles', 16), ('evalall', 16), ('symhess', 10), ('neg', 20), ('eq', 12), ('con', 16), ('bind', 14), ('ls', 12),
        ('vls', 8), ('ll', 8), ('mm', 8), ('script', 24), ('chain', 14), ('global', 14), ('cov', 20), ('constr', 16),
        ('callobj', 16), ('linfit', 14), ('lincon', 10), ('nlfit', 10), ('ode', 8), ('odefit', 4), ('num_eval', 10),
        ('num_neg', 10), ('num_script', 14), ('resstr', 14), ('oeq', 12), ('numeq', 8), ('matrix', 10), ('matcon', 6), ('matfit', 6))]
        + [('fresh_' + b, n) for b, n in (
        ('roles', 16), ('evalall', 16), ('symhess', 10), ('neg', 20), ('eq', 12), ('con', 16), ('bind', 14), ('ls', 12),
        ('vls', 8), ('ll', 8), ('mm', 8), ('script', 24), ('chain', 14), ('global', 14), ('cov', 20), ('constr', 16),
        ('callobj', 16), ('linfit', 14), ('lincon', 10), ('nlfit', 10), ('ode', 8), ('odefit', 4), ('num_eval', 10),
        ('num_neg', 10), ('num_script', 14), ('resstr', 14), ('oeq', 12), ('numeq', 8), ('matrix', 10), ('matcon', 6), ('matfit', 6))]
        + [('load_' + b, n) for b, n in (
        ('evalall', 8), ('neg', 10), ('con', 10), ('script', 16), ('chain', 8), ('cov', 10), ('hist', 12), ('callobj', 8),
        ('num_script', 6), ('oeq', 8), ('matrix', 6))]),
    'C27': dict(scen=[('guess', 240)]),
    'C28': dict(scen=[('symbols', 500)]),
    'C30': dict(scen=[('cprop', 400), ('mcache', 100)]),
    'C32': dict(scen=[('dist', 300), ('distmodel', 160)]),
    'C33': dict(scen=[('mstr', 240), ('resstr', 160)]),
    'C29': dict(scen=[('exprcall', 240)]),
    'C34': dict(scen=[('matrix', 240), ('matcon', 80), ('matfit', 80)]),
    'C35': dict(scen=[('oeq', 160), ('numeq', 140)]),
}
NOTES = {}
