"""C21: the result filters."""
from fractions import Fraction
ID = 'C21'
ASSUMPTIONS = ['roots lie at least 1e-5 from the limits of the test (the roots of the real code are floating-point numbers)',
               'the convergence tests themselves (is_convergence_fast, the estimate) are taken as given: the filters must follow their verdicts']
BOUNDS = {'quick': 'root filter: b polynomials with arbitrary symbolic real roots in [-6,6] of degree <= 2 (complex pairs included) times powers '
                   'of x, symbolic integer coefficients in [-9,9] of degree 1, concrete ones of degree 3..5, interlaces of up to 3, lists of '
                   'up to 4 results; exponential and approach filters: every pattern of verdicts, types and failures on up to 4 results, 9 '
                   'white/black lists',
          'thorough': 'as quick with lists of up to 5 results'}
TYPES = ['exp', 'super_exp', 'over_exp', 'fast', 'poly2sympoly', 'undefined', None, 'mixed']
LISTS = [dict(), dict(whitelist=['exp']), dict(whitelist=['super_exp', 'undefined', 'over_exp']), dict(whitelist=None, blacklist=['exp']),
         dict(whitelist=None, blacklist=['undefined', 'super_exp', 'mixed', 'fast']), dict(whitelist=['undefined', 'mixed']),
         dict(whitelist=['exp'], blacklist=['exp']), dict(blacklist=['mixed']), dict(whitelist=None), dict(whitelist=[], blacklist=[]),
         dict(whitelist=[], blacklist=['exp', 'poly2sympoly'])]


def cases(tier):
    th = tier != 'quick'
    out = [dict(kind='linear', k=k) for k in (0, 1, 2)]
    out += [dict(kind='real', k=2), dict(kind='double', k=1), dict(kind='complex', k=1), dict(kind='powers', k=2), dict(kind='interlace', k=3),
            dict(kind='int', k=1), dict(kind='high', k=4), dict(kind='constant', k=2), dict(kind='twice', k=2)]
    for n in range(0, 6 if th else 5):
        out.append(dict(kind='exp', n=n, verbose=n % 2))
    for i in range(len(LISTS)):
        out.append(dict(kind='approach', n=1, lst=i))
        if i in (0, 3):
            out.append(dict(kind='approach', n=3 if th else 2, lst=i))
    out.append(dict(kind='realexp'))
    out.append(dict(kind='chain'))
    return out


E5, LIM = Fraction(1, 10 ** 5), Fraction(1, 1000)


def near(env, r):
    """real root within 0.001 of a positive integer (never within 1e-5 of the limit)"""
    d = env.abs(r - env.floor(r + Fraction(1, 2)))
    env.assume(env.Or(d < LIM - E5, d > LIM + E5))
    env.assume(env.Or(r < LIM - E5, r > LIM + E5))
    return bool(env.And(d < LIM, r > Fraction(1, 2)))


def same_results(env, got, want, label):
    env.check_same(len(got), len(want), label + ': number')
    for g, w in zip(got, want):
        env.check(g[1] is w[1], label + ': order')
        env.check_same(len(g), len(w), label + ': shape')
        env.check_same(list(g[0]), list(w[0]), label + ': polynomials')
        env.check_same(list(g[2:]), list(w[2:]), label + ': function and convergence')


def run(env, kind, k=0, n=0, verbose=0, lst=0):
    en, le, cf = env.mod('enum_params'), env.mod('lhs_evaluators'), env.mod('cont_fracs')
    m = en.MITM(target_generator=lambda: env.mpf('3.25'))

    def result(i, b, a=((1, 2),)):
        return ((tuple(a), b), le.ULCDEvaluator((i + 1, 1, 0, 1), env.mpf('3.25')), i % 3, (None, ('exp', (i, 2)))[i % 2])
    if kind in ('linear', 'real', 'double', 'complex', 'powers', 'interlace', 'int', 'high', 'constant', 'twice'):
        rs, drop = [], []

        def r(name, B=6):
            return env.real(name, -B, B, kind='float')
        for i in range(k):
            s = (1, -3, 2)[i % 3]
            if kind in ('linear', 'twice'):
                x = r('x%d' % i)
                bs, d = (((-s) * x, s),), near(env, x)
                bs = (bs[0],)
            elif kind == 'real':
                x, y = r('x%d' % i), r('y%d' % i)
                if i:
                    y = 5
                env.assume(env.Or(x - y > LIM, y - x > LIM))
                d = [near(env, v) for v in (x, y) if not isinstance(v, int)] + [bool(i)]
                bs, d = ((s * x * y, (-s) * (x + y), s),), any(d)
            elif kind == 'double':
                t = env.int('t', -5, 5)
                bs, d = ((t * t, -2 * t, 1),), bool(t > 0)
            elif kind == 'complex':
                x, e = r('x%d' % i), env.real('e%d' % i, 0, 1, kind='float')
                env.assume(env.Or(env.And(e < LIM - E5, e > E5), e > LIM + E5))
                c = near(env, x)
                bs, d = ((s * (x * x + e * e), -2 * s * x, s),), c and bool(e < LIM)
            elif kind == 'powers':
                x = r('x%d' % i)
                bs, d = ((0, 0, -s * x, s, 0) if i else (0, -s * x, s),), near(env, x)
            elif kind == 'interlace':
                x = r('x%d' % i)
                fill = (((1, 0, 1), (5,)), ((2, 2), (0, 0, 3)), ((4,), (-1,)))[i]
                bs = list(fill)
                bs.insert(i, (x, -1))
                bs, d = tuple(bs), near(env, x)
            elif kind == 'int':
                p, q = env.int('p', -9, 9), env.int('q', -9, 9)
                bs = ((p, q),)
                d = False
                if bool(q != 0):
                    d = bool(env.And(-p % q == 0, p * q < 0))
            elif kind == 'high':
                # (x-3)(x^2+1), (x+3)(x^2+1), (x^2-2)(x^2-3), (x-1)^3(x+1)^2 (a numerically imprecise triple root)
                bs = (((-3, 1, -3, 1),), ((3, 1, 3, 1),), ((6, 0, -5, 0, 1),), ((-8, 12, -6, 1, -4, 6, -3, 1)[:4] + (1,),))[i]
                d = (True, False, False, None)[i]
                if d is None:
                    # -8+12x-6x^2+x^3+x^4: value at 1 is 0
                    d = True
            elif kind == 'constant':
                c = env.int('c%d' % i, -3, 3)
                bs, d = ((c,), (0, c)) if i else ((c, 0),), False
            rs.append(result(i, bs))
            drop.append(d)
        m.filtered_params = list(rs)
        m.filter_pos_integer_roots_numerators()
        want = [x for x, d in zip(rs, drop) if not d]
        same_results(env, m.get_filtered_params(), want, 'root filter')
        if kind == 'twice':
            m.filter_pos_integer_roots_numerators()
            same_results(env, m.get_filtered_params(), want, 'again')
        env.obs('kept', [x[2] for x in want])
        return
    C = cf.ContFrac
    saved = {a: getattr(C, a) for a in ('is_convergence_fast', 'estimate_approach_type_and_params', 'get_approach_type_and_params')}

    def tag(self):
        a = self._params['a_coeffs']
        return env.conc(a[0][0])
    if kind in ('exp', 'approach', 'chain'):
        N = n or (2 if kind == 'chain' else 0)
        fast = [env.flag('fast%d' % i) for i in range(N)] if kind != 'approach' else []
        types = [env.choice('type%d' % i, TYPES) for i in range(N)] if kind != 'exp' else []
        fail = [env.flag('fail%d' % i) for i in range(N)] if kind == 'approach' else [False] * N
        rate = [env.real('rate%d' % i, 0, 9) for i in range(N)]

        class Fail(Exception):
            pass

        def est(self, *a, **kw):
            i = tag(self)
            if kind != 'exp' and fail[i]:
                raise (Fail('no'), ValueError('no'), ZeroDivisionError('no'), cf.ZeroB('no'))[i % 4]
            self._vt_t = (types[i], (rate[i], 1)) if kind != 'exp' else ('undefined', 0)

        def get(self):
            return getattr(self, '_vt_t', ('undefined', 0))
        C.is_convergence_fast = lambda self, *a, **kw: fast[tag(self)]
        C.estimate_approach_type_and_params = est
        C.get_approach_type_and_params = get
    try:
        if kind == 'exp':
            rs = [result(i, ((2, 1),), ((i, 1),)) for i in range(n)]
            m.filtered_params = list(rs)
            m.filter_only_exp_convergence(*([True] if verbose else []))
            same_results(env, m.get_filtered_params(), [x for x, f in zip(rs, fast) if f], 'exponential filter')
        elif kind == 'approach':
            rs = [result(i, ((2, 1),), ((i, 1),)) for i in range(n)]
            m.filtered_params = list(rs)
            kw = dict(LISTS[lst])
            if lst in (6, 7, 8, 9):
                env.check(isinstance(env.raises(m.filter_clicks_by_approach_type, **kw), ValueError), 'one list is required, and one only')
                same_results(env, m.get_filtered_params(), rs, 'a refused filter changes nothing')
                return
            m.filter_clicks_by_approach_type(**kw)
            want = []
            wl, bl = kw.get('whitelist', ['exp', 'super_exp', 'fast']), kw.get('blacklist')
            for i, x in enumerate(rs):
                if not fail[i] and (types[i] in wl if wl else types[i] not in bl):
                    want.append(x[:3] + ((types[i], (rate[i], 1)),))
            same_results(env, m.get_filtered_params(), want, 'approach filter')
        elif kind == 'chain':
            rs = [result(i, ((2, 1),), ((i, 1),)) for i in range(2)]
            m.filtered_params = list(rs)
            m.filter_only_exp_convergence(False)
            m.filter_clicks_by_approach_type(whitelist=['exp', 'super_exp'])
            want = [x[:3] + ((types[i], (rate[i], 1)),) for i, x in enumerate(rs) if fast[i] and types[i] in ('exp', 'super_exp')]
            same_results(env, m.get_filtered_params(), want, 'both')
        else:
            # real fractions: exponential, slower than exponential, interlaced
            abs_ = [(((1,),), ((1,),)), (((1, 2),), ((0, 0, -1),)), (((0, 1),), ((1,), (2,))), (((2,), (3,)), ((1, 1),))]
            rs = [result(i, b, a) for i, (a, b) in enumerate(abs_)]
            m.filtered_params = list(rs)
            m.filter_only_exp_convergence()
            want = [x for x in rs if C(a_coeffs=x[0][0], b_coeffs=x[0][1]).is_convergence_fast()]
            same_results(env, m.get_filtered_params(), want, 'exponential filter')
            env.obs('kept', [x[2] for x in want])
    finally:
        for a, f in saved.items():
            setattr(C, a, f)
