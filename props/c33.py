"""C33: estimate of the approach type."""
from fractions import Fraction

ID = 'C33'
ASSUMPTIONS = ['the parameters of the polynomial type (a linear regression over logarithms) are outside; only its type is decided',
               'the factors are not within 1e-9 of a limit']
BOUNDS = {'quick': 'at each of 6 to 9 sampled positions (4 choices of cutoff, step and length, the defaults included): arbitrary symbolic real first '
                   'differences with absolute values in 1..100, of either sign, in both parities; symbolic constant factors u**2 and w**2, u and w '
                   'between 1/30 and 30, also disturbed by up to an eighth from position to position; factors of one or both parities that grow tenfold per position '
                   'from a symbolic start; a gap at any position in one parity; sequences standing still in one or both parities, also throughout every window (after up to three symbolic first terms); rates 3/2, 2 and 10 with symbolic coefficients of the two parities (equal ones for an odd step); six '
                   'geometric errors that vanish before the default cutoff',
          'thorough': 'as quick, with three more choices of cutoff, step and length (up to 13 positions)'}
SHAPES = [(36, 0, 6), (50, 8, 7), (60, 5, 10), (600, 200, 50)]
RETRY = [('4', 90), ('100', 90), ('3', 90), ('4', 75), ('2', 190), ('3/2', 350)]  # base, first position without any error


def cases(tier):
    out = []
    for sh in SHAPES + ([(96, 30, 6), (500, 20, 40), (1000, 100, 100)] if tier != 'quick' else []):
        for kind in ('ratio', 'varied', 'growing', 'onegrow', 'gaps', 'still', 'half'):
            out.append(dict(kind=kind, shape=list(sh)))
    for r in ('1.5', '2', '10'):
        out.append(dict(kind='coeff', shape=[36, 0, 6], r=r))
        out.append(dict(kind='coeff', shape=[50, 8, 7], r=r))
    out.append(dict(kind='outer', shape=[600, 200, 50]))
    for n in (0, 3):
        out.append(dict(kind='never', shape=[600, 200, 50], n=n))
    for n in range(len(RETRY)):
        out.append(dict(kind='retry', shape=[600, 200, 50], n=n))
    return out


def sequence(env, cf, value):
    """a continued fraction object whose convergents are value(i)"""
    class Given(cf.ContFrac):
        def iteration_algorithm(self, params, state_mat, i, print_calc):
            (p, _), _ = state_mat
            return params, ((value(i + 1), p), (1, 1))
    return Given([[1]], [[1]], first_iter_matrix=((value(0), 1), (1, 1)))


def positions(iters, cutoff, step):
    return [cutoff] + list(range(cutoff + step, iters + 1, step))


def blocks(env, pos, even, odd, base=True):
    """convergents with the given pairs of differences at the sampled positions, constant in between"""
    v = {}
    e = env.real('e') if base else env.mpf(0)
    o = env.real('o') if base else env.mpf(1)
    for k, i in enumerate(pos):
        v[i], v[i + 2], v[i + 4] = e, e + even[k][0], e + even[k][0] + even[k][1]
        v[i + 1], v[i + 3], v[i + 5] = o, o + odd[k][0], o + odd[k][0] + odd[k][1]
    return lambda i: v.get(i, e)


def run(env, kind, shape, r=None, n=0):
    env.lib('mpmath').mp.dps = 60
    cf = env.mod('cont_fracs')
    # which of the two fitted coefficients is the smaller one does not matter here
    env.leave_open_above(20)
    iters, cutoff, step = shape
    pos = positions(*shape)
    free = len(pos)
    k = dict(iters=iters, initial_cutoff=cutoff, iters_step=step)

    def difference(name, i):
        """a difference well above the precision limit, of either sign"""
        x = env.real('%s%d' % (name, i), 1, 100) if i < free else env.mpf(7 * i + 3) / (i + 2)
        return x if i % 3 else -x

    def inner(c, **kw):
        return c._estimate_approach_type_and_params_inner_alg(**dict(k, **kw))
    if kind in ('ratio', 'outer', 'varied'):
        u, w = env.real('u', Fraction(1, 30), 30), env.real('w', Fraction(1, 30), 30)
        R, S = u * u, w * w
        t = [env.mpf(1)] * len(pos) if kind != 'varied' else [1 + env.mpf([0, 1, -1, 2, -2][i * i % 5]) / 16 for i in range(len(pos))]
        mean = sum(t) / len(pos)
        for x in (R * mean, S * mean):
            env.assume(env.Or(x > env.mpf('1.100000001'), x < env.mpf('1.099999999')))
        D = [difference('d', i) for i in range(len(pos))]
        E = [difference('f', i) for i in range(len(pos))]
        c = sequence(env, cf, blocks(env, pos, [(d, d / (R * x)) for d, x in zip(D, t)], [(f, -f / (S * x)) for f, x in zip(E, t)]))
        if kind == 'outer':
            env.assume(env.Or(R > env.mpf('1.1'), S > env.mpf('1.1')))
            c.estimate_approach_type_and_params()
            t, p = c.get_approach_type_and_params()
        else:
            t, p = inner(c)
        a, b = bool(R * mean > env.mpf('1.1')), bool(S * mean > env.mpf('1.1'))
        env.check(t == ('exp' if a and b else 'mixed' if a or b else 'poly2sympoly'), 'type')
        if a and b:
            m = S if bool(S < R) else R
            env.check(env.And(p[0] > 0, near(env, p[0] * p[0], m * mean)), 'the slower rate')
        env.obs('type', t)
    elif kind == 'growing':
        # the factor itself grows tenfold from position to position
        R = env.real('R', Fraction(1, 10 ** 12), 100)
        f = [R * 10 ** i for i in range(len(pos))]
        q = 3 * int(len(pos) / 4)
        for x in f:
            env.assume(env.Or(x > env.mpf('2.000000001'), x < env.mpf('1.999999999')))
        D = [difference('d', i) for i in range(len(pos))]
        c = sequence(env, cf, blocks(env, pos, [(d, d / x) for d, x in zip(D, f)], [(d, d / x) for d, x in zip(D, f)]))
        t, p = inner(c)
        env.check(t == ('super_exp' if bool(f[q] > 2) else 'undefined'), 'type of a growing factor')
    elif kind == 'onegrow':
        # only one parity's factor grows
        R = env.real('R', Fraction(1, 10 ** 12), 100)
        u = env.real('u', Fraction(1, 30), 30)
        S = u * u
        f = [R * 10 ** i for i in range(len(pos))]
        q = 3 * int(len(pos) / 4)
        for x in f + [S]:
            env.assume(env.Or(x > env.mpf('2.000000001'), x < env.mpf('1.999999999')))
        D = [difference('d', i) for i in range(len(pos))]
        even = [(d, d / x) for d, x in zip(D, f)]
        odd = [(d, d / S) for d in D]
        if env.flag('swap'):
            even, odd = odd, even
        c = sequence(env, cf, blocks(env, pos, even, odd))
        t, p = inner(c)
        env.check(t == ('super_exp' if bool(f[q] > 2) and bool(S > 2) else 'undefined'), 'type when one factor grows')
    elif kind == 'gaps':
        # positions at which one parity does not move tell nothing
        u = env.real('u', Fraction(1, 30), 30)
        R = u * u
        env.assume(env.Or(R > env.mpf('1.100000001'), R < env.mpf('1.099999999')))
        D = [difference('d', i) for i in range(len(pos))]
        g, w = env.choice('gap', list(range(len(pos) - 3))), env.flag('even')
        a = [(d, d / R) for d in D]
        b = [x if i != g else (env.mpf(0), env.mpf(0)) for i, x in enumerate(a)]
        c = sequence(env, cf, blocks(env, pos, b if w else a, a if w else b))
        t, p = inner(c)
        if len(pos) >= 7:
            env.check(t == ('exp' if bool(R > env.mpf('1.1')) else 'poly2sympoly'), 'type with a gap')
            if t == 'exp':
                env.check(near(env, p[0] * p[0], R), 'rate with a gap')
        else:
            env.check(t is None, 'too few positions')
    elif kind == 'still':
        # constant in both parities: nothing is left of the error
        c = sequence(env, cf, blocks(env, pos, [(env.mpf(0), env.mpf(0))] * len(pos), [(env.mpf(0), env.mpf(0))] * len(pos)))
        t, p = inner(c)
        env.check_same([t, p], ['fast', 0], 'nothing left')
    elif kind == 'half':
        # constant in one parity only, at every sampled position
        w = env.flag('even')
        other = [(d, d / 3) for d in [difference('d', i) for i in range(len(pos))]]
        z = [(env.mpf(0), env.mpf(0))] * len(pos)
        c = sequence(env, cf, blocks(env, pos, z if w else other, other if w else z))
        t, p = inner(c)
        env.check(t == 'undefined', 'one parity only')
    elif kind == 'coeff':
        # (the two parities may have different coefficients)
        B, C = env.mpf(r), env.real('C', 1, 10 ** 6)
        D = C
        if step % 2 == 0:
            D = env.real('D', 1, 10 ** 6)
            env.assume(env.Or(C == D, C > D + 1, C < D - 1))
        # |x_(i+2) - x_i| = C (1 - B**-2) B**-i, as the error C B**-i demands
        vals = {}
        for i in range(iters + 8):
            vals[i] = 3 + (C if i % 2 else -D) / B ** i
        c = sequence(env, cf, lambda i: vals[i])
        t, p = inner(c)
        env.check(t == 'exp', 'type of a geometric error')
        env.check(near(env, p[0], B), 'rate of a geometric error')
        env.check(near(env, p[1], env.ite(C < D, C, D)), 'coefficient of a geometric error')
    elif kind == 'never':
        # nothing moves in any of the windows that are looked at (apart from n first terms)
        first = [env.real('x%d' % i) for i in range(n)]
        e, o = env.real('e'), env.real('o')
        c = sequence(env, cf, lambda i: first[i] if i < n else (o if i % 2 else e))
        c.estimate_approach_type_and_params()
        env.check_same(list(c.get_approach_type_and_params()), ['fast', 0], 'nothing moves in any window')
    elif kind == 'retry':
        # a geometric error that falls below the precision after a while: earlier positions are looked at
        base, cut = RETRY[n]
        B, C = env.mpf(base), env.real('C', 1, 10)
        vals = {}
        for i in range(610):
            vals[i] = 3 + (C / B ** i) * (1 if i % 2 else -1) if i < cut else env.mpf(3)
        c = sequence(env, cf, lambda i: vals[i])
        c.estimate_approach_type_and_params()
        t, p = c.get_approach_type_and_params()
        env.check(t == 'exp', 'type of an error that vanishes later')
        env.check(near(env, p[0], B), 'rate of an error that vanishes later')


def near(env, x, y):
    e = env.abs(y) / 10 ** 12
    return env.And(x - y <= e, y - x <= e)
