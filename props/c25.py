"""C25: greatest common divisor and substitution."""
from props.common import peval
ID = 'C25'
ASSUMPTIONS = ['exact arithmetic: coefficients and arguments are integers or working-precision numbers without rounding']
BOUNDS = {'quick': 'divisor: all pairs of integers in [-16,16] (in 64 strips), all pairs with one argument in 0, +-1, +-2, +-3 and the other '
                   'unbounded, multiples of unbounded numbers; integers as int and as mpf; substitution: lists of up to 12 symbolic '
                   'coefficients, symbolic integer and real arguments',
          'thorough': 'as quick with pairs in [-40,40] and lists of up to 24'}


def cases(tier):
    th = tier != 'quick'
    B, W = (40, 3) if th else (16, 4)
    out = []
    for lo in range(-B, B + 1, W):
        for sgn in ((-B, -1), (0, B)):
            out.append(dict(kind='gcd', a=[lo, min(lo + W - 1, B)], b=list(sgn)))
    out += [dict(kind='small', b=b) for b in (0, 1, -1, 2, -2, 3, -3)]
    out += [dict(kind='zero'), dict(kind='multiple'), dict(kind='mpf'), dict(kind='big')]
    for n in (0, 1, 2, 3, 4, 6, 9, 12) + ((24,) if th else ()):
        for t in ('int', 'real', 'mixed'):
            out.append(dict(kind='subs', n=n, t=t))
    out += [dict(kind='point', n=4), dict(kind='float', n=3), dict(kind='interp')]
    for c in out:
        if c['kind'] == 'gcd':
            c['_opts'] = dict(tables=True)
    return out


def run(env, kind, a=None, b=None, n=0, t=''):
    M = env.mod('utils').MathOperations
    if kind == 'gcd':
        x, y = env.int('a', *a), env.int('b', *b)
        g = M.gcd(x, y)
        if bool(y == 0):
            env.check_same(g, x, 'second argument zero')
            return
        env.check(env.Iff(g > 0, y > 0), 'sign of the second argument')
        env.check(g != 0, 'not zero')
        env.check(env.And(x % g == 0, y % g == 0), 'divides both')
        m = max(abs(v) for v in b)
        for d in range(2, m + 1):
            env.check(env.Implies(env.And(x % d == 0, y % d == 0), g % d == 0), 'divisible by common divisor %d' % d)
        env.obs('gcd', g)
    elif kind == 'small':
        x = env.int('a')
        g = M.gcd(x, b)
        if b == 0:
            env.check_same(g, x, 'second argument zero')
        else:
            s = 1 if b > 0 else -1
            env.check_same(g, env.ite(x % b == 0, b, s), 'value')
            h = M.gcd(b, x)
            env.check_same(env.abs(h), env.ite(x % b == 0, s * b, 1), 'absolute value, other order')
            env.check(env.Implies(x != 0, env.Iff(h > 0, x > 0)), 'sign, other order')
            env.check(env.Implies(x == 0, h == b), 'zero')
    elif kind == 'zero':
        x = env.int('a')
        env.check_same(M.gcd(0, x), x, 'first argument zero')
        env.check_same(M.gcd(x, 0), x, 'second argument zero')
        env.check_same(M.gcd(0, 0), 0, 'both zero')
    elif kind == 'multiple':
        x, k = env.int('x'), env.int('k')
        env.assume(x != 0)
        env.check_same(M.gcd(k * x, x), x, 'multiple of the second')
        g = M.gcd(x, 3 * x)
        env.check(env.Or(g == x, g == -x), 'multiple of the first')
        env.check(env.Iff(g > 0, x > 0), 'sign')
        # consecutive numbers and Fibonacci multiples
        g = M.gcd(5 * x, 8 * x)
        env.check(env.And(env.Or(g == x, g == -x), env.Iff(g > 0, x > 0)), 'common factor')
        g = M.gcd(-12 * x, 18 * x)
        env.check(env.And(env.Or(g == 6 * x, g == -6 * x), env.Iff(g > 0, x > 0)), 'common factor 6')
    elif kind == 'mpf':
        env.lib('mpmath').mp.dps = 60
        for x, y, g in ((12, 18, 6), (-12, 18, 6), (12, -18, -6), (7, 21, 7), (21, -7, -7), (5, 0, 5), (0, -5, -5), (10 ** 30, 6 * 10 ** 20, 2 * 10 ** 20)):
            env.check_same(M.gcd(env.mpf(x), env.mpf(y)), env.mpf(g), 'gcd of mpf')
    elif kind == 'big':
        f = [1, 1]
        while len(f) < 120:
            f.append(f[-1] + f[-2])
        env.check_same(M.gcd(f[-1], f[-2]), 1, 'many steps')
        env.check_same(M.gcd(f[-2] * 35, -f[-1] * 35), -35, 'many steps')
        x = env.int('x', 1)
        env.check_same(M.gcd(f[8] * x, f[9] * x), x, 'many steps with a common factor')
    else:
        env.lib('mpmath').mp.dps = 60
        if kind == 'subs':
            cs = [env.int('c%d' % i) for i in range(n)]
            if t == 'mixed':
                cs = [c if i % 2 else env.real('r%d' % i) for i, c in enumerate(cs)]
            x = env.int('x', -10 ** 6, 10 ** 6) if t == 'int' else env.real('x', -100, 100)
            keep = list(cs)
            env.check_same(M.subs_in_polynom(cs, x), peval(cs, x), 'value')
            env.check_same(cs, keep, 'coefficients left alone')
            env.check_same(M.subs_in_polynom(tuple(cs), x), peval(cs, x), 'value (tuple)')
            env.check_same(M.subs_in_polynom(cs + [0, 0], x), peval(cs, x), 'zero leading coefficients')
        elif kind == 'point':
            cs = [env.int('c%d' % i) for i in range(n)]
            env.check_same(M.subs_in_polynom(cs, 0), cs[0], 'at 0')
            env.check_same(M.subs_in_polynom(cs, env.mpf(0)), cs[0], 'at 0 (mpf)')
            env.check_same(M.subs_in_polynom(cs, 1), cs[0] + cs[1] + cs[2] + cs[3], 'at 1')
            env.check_same(M.subs_in_polynom(cs, -1), cs[0] - cs[1] + cs[2] - cs[3], 'at -1')
            env.check_same(M.subs_in_polynom([0] * 5 + [cs[0]], 10), cs[0] * 10 ** 5, 'single term')
        elif kind == 'float':
            cs = [env.int('c%d' % i, -99, 99) for i in range(n)]
            x = env.real('x', -8, 8, kind='float')
            env.check_same(M.subs_in_polynom(cs, x), cs[0] + cs[1] * x + cs[2] * x * x, 'float argument')
        else:
            # additive and multiplicative
            a, b = [env.int('a%d' % i) for i in range(3)], [env.int('b%d' % i) for i in range(3)]
            x = env.real('x', -100, 100)
            f = M.subs_in_polynom
            env.check_same(f([u + v for u, v in zip(a, b)], x), f(a, x) + f(b, x), 'sum of polynomials')
            prod = [0] * 5
            for i in range(3):
                for j in range(3):
                    prod[i + j] = prod[i + j] + a[i] * b[j]
            env.check_same(f(prod, x), f(a, x) * f(b, x), 'product of polynomials')
