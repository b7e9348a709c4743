"""Common parts of the scenario generators (seeded, independent of symfit)."""
import random
from fractions import Fraction as Fr
import numpy as np
import sympy
from enc import c, s, add, mul, pw, fn, syms, to_sympy, evalf, magf, q

# single letters, numbered names (a10 < a2), capitals, underscores, names of
# sympy objects and functions
POOL = ['a', 'b', 'c', 'd', 'e1', 'f', 'g', 'h', 'k', 'm', 'n', 'p', 'u', 'v', 'w', 'x', 'y', 'z',
        'A', 'B', 'C1', 'K', 'X', 'Y', 'Z', 'a1', 'a2', 'a10', 'b_1', 'b1', 'x1', 'x2', 'x10', 'y0',
        'y1', 'y10', 'alpha', 'beta', 'gamma', 'omega', 'mu', 'T', 'tau', 'zeta', '_r', '_s', 'aa',
        'ab', 'ba', 'Ab', 'aB', 'x_1', 'x_2', 'y_a', 'q', 'r', 'rho', 'amplitude_1', 'temperature', 'decay_rate', 'S', 'N', 'Q', 'theta', 'lam', 'sig', 't',
        '\u03b1', '\u03b2', '\u03c6_1', '\u00b5', '\u03a9', '\u00e9']


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def names(self, k, avoid=()):
        pool = [n for n in POOL if n not in avoid]
        return self.r.sample(pool, k)

    def const(self, nz=True):
        r = self.r
        while True:
            v = r.choice([Fr(r.randint(-4, 4)), Fr(r.randint(-8, 8), 4), Fr(r.randint(-3, 3), 2)])
            if v or not nz:
                return c(v)

    def val(self, lo=-3, hi=3, nz=False, den=4):
        r = self.r
        while True:
            v = Fr(r.randint(lo * den, hi * den), den)
            if v or not nz:
                return v

    def vals(self, n, lo=-3, hi=3, distinct=False):
        while True:
            res = [self.val(lo, hi) for _ in range(n)]
            if not distinct or len(set(res)) == n:
                return res

    def expr(self, sy, depth=2, funcs=True, need=()):
        """random smooth expression over the symbols sy, using every one in `need`"""
        r = self.r
        for _ in range(50):
            e = self._expr(sy, depth, funcs)
            miss = [n for n in need if n not in syms(e)]
            r.shuffle(miss)
            for n in miss:
                t = s(n)
                ch = r.random()
                if ch < .3:
                    t = mul(self.const(), t)
                elif ch < .5:
                    t = pw(t, 2)
                e = add(e, t) if r.random() < .6 else mul(add(e, self.const()), t)
            if self.ok(e):
                return e
        raise RuntimeError('expr')

    def _expr(self, sy, depth, funcs):
        r = self.r
        if depth == 0 or not sy:
            return s(r.choice(sy)) if sy and r.random() < .8 else self.const()
        ch = r.random()
        if ch < .35:
            return add(*[self._expr(sy, depth - 1, funcs) for _ in range(r.choice([2, 2, 3]))])
        if ch < .72:
            return mul(*[self._expr(sy, depth - 1, funcs) for _ in range(r.choice([2, 2, 3]))])
        if ch < .85 or not funcs:
            return pw(self._expr(sy, depth - 1, funcs), r.choice([2, 2, 3]))
        if ch < .89:
            return pw(add(c(1), pw(self._expr(sy, depth - 1, False), 2)), r.choice([-1, -1, -2]))
        f = r.choice(['exp', 'sin', 'cos', 'log', 'sqrt'])
        a = self._expr(sy, depth - 1, False)
        if f in ('log', 'sqrt'):
            a = add(c(1), pw(a, 2))
        return fn(f, a)

    @staticmethod
    def ok(e):
        """no symbol may vanish when sympy builds the expression"""
        x = to_sympy(e, lambda n: sympy.Symbol(n, real=True))
        return {str(t) for t in x.free_symbols} == syms(e)

    def small(self, defs, env, lim=2e3):
        """are all component values and terms of moderate size (array env)?"""
        env = dict(env)
        with np.errstate(all='ignore'):
            todo = list(defs)
            while todo:
                for d in todo:
                    if all(n in env for n in syms(d['e'])):
                        m = magf(d['e'], env)
                        if not np.isfinite(m) or m > lim:
                            return False
                        env[d['n']] = evalf(d['e'], env)
                        todo.remove(d)
                        break
                else:
                    return False
        return True

    # data descriptions -----------------------------------------------------
    def num(self, v):
        return {'k': 'num', 'v': str(v), 'sh': [], 'd': [str(v)]}

    def array(self, sh, lo=-3, hi=3, distinct=False):
        n = int(np.prod(sh)) if sh else 1
        return {'k': 'arr', 'sh': list(sh), 'd': [str(v) for v in self.vals(n, lo, hi, distinct)]}


def param(n, value, min='none', max='none', fixed='false'):
    return {'op': 'param', 'n': n, 'value': str(value), 'min': str(min), 'max': str(max), 'fixed': fixed}


def fl(d):
    """float array of a data description"""
    a = np.array([float(Fr(v)) for v in d['d']]).reshape(d['sh'])
    return a
