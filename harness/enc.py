"""Encoding of numbers, arrays and expressions between Python and the specification."""
from fractions import Fraction
import math
import numpy as np


def q(x):
    """A number as the string of an exact rational (shortest decimal of a float)."""
    if isinstance(x, str):
        return x
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, (bool, np.bool_)):
        return '1' if x else '0'
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag != 0:
            return 'nan'
        x = x.real
    x = float(x)
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    return str(Fraction(repr(x)))


def arr(a):
    a = np.asarray(a)
    if a.dtype == object:
        a = a.astype(float)
    return {'sh': [int(s) for s in a.shape], 'd': [q(v) for v in a.ravel().tolist()]}


def unq(s):
    """String of a rational to a float."""
    if s == 'inf':
        return math.inf
    if s == '-inf':
        return -math.inf
    if s == 'nan':
        return math.nan
    return float(Fraction(s))


def unarr(o, dtype=float):
    return np.array([unq(v) for v in o['d']], dtype=dtype).reshape(o['sh'])


# --- expression trees ------------------------------------------------------
def c(v):
    return {'o': 'c', 'v': str(Fraction(v))}


def s(n):
    return {'o': 's', 'n': n}


def add(*a):
    return {'o': '+', 'a': list(a)}


def mul(*a):
    return {'o': '*', 'a': list(a)}


def mt(f, *a, **x):
    """matrix operation: T, inv, mpow (k), had, hpow (k), elem (i, j), sum (dim)"""
    return dict({'o': 'm', 'f': f, 'a': list(a)}, **x)


def pw(b, k):
    return {'o': '^', 'b': b, 'k': k}


def fn(f, a):
    return {'o': 'f', 'f': f, 'a': a}


def syms(e):
    o = e['o']
    if o == 'c':
        return set()
    if o == 's':
        return {e['n']}
    if o in '+*m':
        return set().union(*[syms(x) for x in e['a']]) | set(e.get('dim', [])) if e['a'] else set()
    if o == '^':
        return syms(e['b'])
    return syms(e['a'])


def to_sympy(e, look):
    import sympy
    o = e['o']
    if o == 'c':
        f = Fraction(e['v'])
        return sympy.Rational(f.numerator, f.denominator)
    if o == 's':
        return look(e['n'])
    if o == '+':
        a = [to_sympy(x, look) for x in e['a']] or [sympy.Integer(0)]
        r = a[0]
        for x in a[1:]:
            r = r + x
        return r
    if o == '*':
        r = sympy.Integer(1)
        for x in e['a']:
            r = r * to_sympy(x, look)
        return r
    if o == '^':
        return to_sympy(e['b'], look) ** e['k']
    if o == 'm':
        a = [to_sympy(x, look) for x in e['a']]
        f = e['f']
        if f == 'T':
            return a[0].T
        if f == 'inv':
            return sympy.Inverse(a[0])
        if f == 'mpow':
            return a[0] ** e['k']
        if f == 'had':
            return sympy.HadamardProduct(*a)
        if f == 'hpow':
            return sympy.HadamardPower(a[0], e['k'])
        if f == 'elem':
            return a[0][e['i'], e['j']]
        if f == 'sum':      # over the rows of column vectors
            n = look(e['dim'][0]) if e['dim'] else a[0].shape[0]
            i = sympy.Idx('i_', n)
            return sympy.Sum(sympy.Mul(*[x[i, 0] for x in a]), i)
    return getattr(sympy, e['f'])(to_sympy(e['a'], look))


def evalf(e, env):
    """Float evaluation with numpy; used for callables under test and as a size filter."""
    o = e['o']
    if o == 'c':
        f = Fraction(e['v'])
        return f.numerator / f.denominator
    if o == 's':
        return env[e['n']]
    if o == '+':
        r = 0.0
        for x in e['a']:
            r = r + evalf(x, env)
        return r
    if o == '*':
        r = 1.0
        for x in e['a']:
            r = r * evalf(x, env)
        return r
    if o == '^':
        b = evalf(e['b'], env)
        return b ** e['k'] if e['k'] >= 0 else 1.0 / b ** (-e['k'])
    return getattr(np, e['f'])(evalf(e['a'], env))


def magf(e, env):
    """Upper estimate of the size of the terms of an expression (filter only)."""
    o = e['o']
    if o == 'c':
        return abs(Fraction(e['v']).__float__())
    if o == 's':
        return np.max(np.abs(env[e['n']]))
    if o == '+':
        return sum(magf(x, env) for x in e['a'])
    if o == '*':
        r = 1.0
        for x in e['a']:
            r = r * max(1e-3, magf(x, env))
        return r
    if o == '^':
        m = magf(e['b'], env)
        return m ** e['k'] if e['k'] >= 0 else 1.0
    if e['f'] == 'exp':
        m = magf(e['a'], env)
        return float(np.exp(min(m, 700)))
    return max(1.0, magf(e['a'], env))
