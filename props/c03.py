"""C03: ZeroB exactly when a numerator vanishes."""
from props.common import polys, term, nested
ID = 'C03'
ASSUMPTIONS = ['values with avoidance off are compared when the denominator after n iterations is not zero']
BOUNDS = {'quick': 'b: up to 3 interlaced polynomials with 1..3 unbounded symbolic coefficients, n <= 6; with a portioned run; '
                   'enumeration with requested fractions over symbolic ranges of 2; avoidance off: n <= 4',
          'thorough': 'as quick with n <= 9'}


def cases(tier):
    N = 6 if tier == 'quick' else 9
    out = []
    for nb in (1, 2, 3):
        for d in (1, 2, 3):
            if d == 3 and nb > 2:
                continue
            for n in (0, 1, N if d < 3 else 4):
                for mode in ('gen', 'add', 'reuse'):
                    out.append(dict(kind='on', nb=nb, d=d, n=n, mode=mode))
                if d < 3:
                    out.append(dict(kind='on', nb=nb, d=d, n=min(n, 3), mode='log', _opts=dict(timeout_ms=4000)))
            for n in (2, 3, 4):
                if d < 3 and nb < 3:
                    out.append(dict(kind='off', nb=nb, d=d, n=n, mode='gen'))
    out.append(dict(kind='enum', nb=1, d=2, n=3, mode=''))
    out.append(dict(kind='enum', nb=2, d=1, n=3, mode=''))
    return out


def run(env, kind, nb, d, n, mode):
    cf = env.mod('cont_fracs')
    b = polys(env, 'b', nb, d)
    if kind == 'on':
        a = [[env.int('a0'), env.int('a1')], [env.int('a2')]] if mode != 'log' else [[1, 2], [3]]
        kw = dict(avoid_zero_b=True) if mode not in ('gen', '') else {}  # on is the default
        c = cf.ContFrac(a, [[1]] if mode == 'reuse' else b, logging=mode == 'log', **kw)
        if mode == 'reuse':
            c.gen_iterations(2)
            c.reinitialize(b_coeffs=b)
        if mode == 'add':
            def go():
                for i in range(n):
                    c.add_iterations(1, exec_finalize=False)
            e = env.raises(go)
        else:
            e = env.raises(c.gen_iterations, n, exec_finalize=False)
        first = None
        for i in range(1, n + 1):
            if term(b, i) == 0:
                first = i
                break
        if first is None:
            env.check(e is None, 'no error without a zero numerator')
            env.check_same(c.get_p_q(), nested(lambda i: term(a, i), lambda i: term(b, i), n), 'convergent')
        else:
            env.check(isinstance(e, cf.ZeroB), 'zero numerator is reported')
            env.check_same(list(e.args), [first], 'first zero numerator is reported')
        env.obs('first', first)
    elif kind == 'off':
        a = [[1, 2], [3]]
        c = cf.ContFrac(a, b, avoid_zero_b=False)
        k = env.conc(env.int('k', 1, n))
        for i in range(1, k):
            env.assume(term(b, i) != 0)
        env.assume(term(b, k) == 0)
        e = env.raises(c.gen_iterations, n)
        env.check(e is None, 'no error with avoidance off')
        v = c.get_result()
        N, D = nested(lambda i: term(a, i), lambda i: term(b, i), k - 1)
        if not env.is_nan(v):
            env.check_same(v * D, env.mpf(0) + N, 'value of the truncated fraction')
    elif kind == 'enum':
        ep = env.mod('enum_poly_params')
        lo = [[env.int('r%d_%d' % (i, j)) for j in range(d)] for i in range(nb)]
        e = ep.BasicEnumPolyParams(num_of_iterations=n, avoid_int_roots=False, should_gen_contfrac=True, avoid_zero_b=True)
        rb = [[[l, l + 2] for l in p] for p in lo]
        got = []
        g, _ = e.polys_generator([[[2, 3]]], rb)
        for c, pa, pb in g:
            env.check_same(c.get_p_q(), nested(lambda i: term(pa, i), lambda i: term(pb, i), n), 'yielded fraction')
            got.append([list(p) for p in pb])
        from props.common import product, same_bag
        want = []
        for ch in product([product([(l, l + 1) for l in p]) for p in lo]):
            ch = [list(p) for p in ch]
            if any(term(ch, i) == 0 for i in range(1, n + 1)):
                continue
            if nb > 1 and env.conc(env.And(*[env.same(ch[0], p) for p in ch])):
                ch = ch[:1]
            want.append(ch)
        same_bag(env, got, want, 'only pairs with a zero numerator are skipped')
