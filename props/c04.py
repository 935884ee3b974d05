"""C04: direct evaluators."""
from props.common import polys, term, nested
ID = 'C04'
ASSUMPTIONS = ['no inner denominator of the fraction vanishes (otherwise the value is undefined)',
               'division of integers is exact (the code uses float division for plain integers)']
BOUNDS = {'quick': 'explicit lists up to 6 symbolic numbers (integers or mpf); all length combinations up to 4 x 4; '
                   'polynomials: up to 3 interlaced, up to 2 coefficients, depth <= 5 (symbolic), both evaluators',
          'thorough': 'lists up to 9, depth <= 7'}


def cases(tier):
    th = tier != 'quick'
    out = []
    for kind in ('int', 'mpf'):
        for n in range(1, 9 if th else 6):
            out.append(dict(kind='lists', num=kind, n=n, _opts=dict(timeout_ms=3000)))
    for la in range(0, 5):
        for lb in range(0, 5):
            if la not in (lb, lb + 1):
                out.append(dict(kind='reject', n=la, m=lb))
    for f in ('int', 'dec'):
        for na, nb, d in ((1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 2), (2, 3, 1), (3, 2, 1), (2, 2, 2)):
            for n in (1, 2, 3, 4, 5) + ((6, 7) if th else ()):
                if na + nb > 3 and n == 2 or d == 2 and n > 4 and not th:
                    continue
                out.append(dict(kind='polys', num=f, na=na, nb=nb, d=d, n=n, _opts=dict(timeout_ms=3000)))
        for n in (1, 2, 3):
            out.append(dict(kind='bare', num=f, d=2, n=n))
    for na in (1, 2):
        for n in (12, 40):
            out.append(dict(kind='long', na=na, n=n))
    return out


def number(env, num, name):
    return env.int(name) if num == 'int' else env.real(name)


def inner(env, A, B, n):
    """numerator/denominator pairs of all tails; assumes that the denominators do not vanish"""
    num, den = A(n), 1
    for i in range(n, 0, -1):
        env.assume(num != 0)
        num, den = A(i - 1) * num + B(i) * den, num
    return num, den


def value(env, v, N, D, label):
    env.check(not env.is_nan(v) and not env.is_inf(v), label + ' is a number')
    env.check_same(v * D, env.mpf(0) + N, label)


def run(env, kind, num='int', n=0, m=0, na=1, nb=1, d=1):
    cf = env.mod('cont_fracs')
    if kind == 'lists':
        a = [number(env, num, 'a%d' % i) for i in range(n)]
        b = [number(env, num, 'b%d' % i) for i in range(n)]
        form = env.choice('form', ['tuple', 'list'])
        T = tuple if form == 'tuple' else list
        mode = env.choice('mode', ['additive', 'equal', 'ones'])
        A, B = T(a), T(b[:n - 1] if mode == 'additive' else b)
        if mode == 'additive':
            N, D = inner(env, lambda i: a[i], lambda i: b[i - 1], n - 1)
            v = cf.eval_contfrac(A, B)
        elif mode == 'equal':
            N, D = inner(env, lambda i: a[i - 1] if i else 0, lambda i: b[i - 1], n)
            v = cf.eval_contfrac(A, B)
        else:
            N, D = inner(env, lambda i: a[i], lambda i: 1, n - 1)
            v = cf.eval_contfrac(A)
        value(env, v, N, D, 'value with b %s' % mode)
        env.obs('v', v)
        env.check_same(list(A), a, 'first argument unchanged')
        env.check_same(list(B), b[:n - 1] if mode == 'additive' else b, 'second argument unchanged')
    elif kind == 'reject':
        a = [env.int('a%d' % i, 1) for i in range(n)]
        b = [env.int('b%d' % i, 1) for i in range(m)]
        e = env.raises(cf.eval_contfrac, a, b)
        env.check(isinstance(e, ValueError), 'lengths %d and %d are rejected' % (n, m))
    elif kind == 'bare':
        a = [env.int('a%d' % i) for i in range(d)]
        b = [env.int('b%d' % i) for i in range(d)]
        T = tuple if env.flag('tuple') else list
        N, D = inner(env, lambda i: term([a], i), lambda i: term([b], i), n - 1)
        f = cf.eval_contfrac_by_polys if num == 'int' else cf.eval_dec_contfrac_by_polys
        value(env, f(T(a), T(b), n), N, D, 'bare polynomials')
        value(env, f([a], T(b), n), N, D, 'one bare polynomial')
        value(env, f(T(a), [b], n), N, D, 'other bare polynomial')
    elif kind == 'polys':
        a, b = polys(env, 'a', na, d), polys(env, 'b', nb, d)
        if env.flag('tuple'):
            a, b = tuple(tuple(p) for p in a), tuple(tuple(p) for p in b)
        N, D = inner(env, lambda i: term(a, i), lambda i: term(b, i), n - 1)
        f = cf.eval_contfrac_by_polys if num == 'int' else cf.eval_dec_contfrac_by_polys
        a0, b0 = [list(p) for p in a], [list(p) for p in b]
        v = f(a, b, n)
        value(env, v, N, D, 'value by polynomials')
        env.check_same([list(p) for p in a], a0, 'a unchanged')
        env.check_same([list(p) for p in b], b0, 'b unchanged')
        c = cf.ContFrac(a, b, avoid_zero_b=False)
        c.gen_iterations(n - 1, exec_finalize=False)
        p, q = c.get_p_q()
        env.check_same(v * q, env.mpf(0) + p, 'continued fraction object after depth-1 iterations')
        if num == 'dec':
            env.check(isinstance(v, env.lib('mpmath').mpf), 'arbitrary precision result')
    elif kind == 'long':
        # concrete fraction except for its innermost numerator: linear fractional in it
        x = env.int('x', 0)
        a = [[2, 1], [3]][:na]
        b = [[1, 1, 1]] * (n - 1) + [[x]]
        N, D = nested(lambda i: term(a, i), lambda i: term(b, i), n - 1)
        v = cf.eval_dec_contfrac_by_polys(a, b, n)
        value(env, v, N, D, 'deep fraction')
