"""C18: building and extending the table."""
from props.common import same_bag
ID = 'C18'
ASSUMPTIONS = ['the enumeration yields the polynomials of the ranges (C06-C08) and the working precision exceeds the table accuracy',
               'transcendental post-processing functions (sin ... ln) are covered by C27; the build treats all functions alike']
BOUNDS = {'quick': 'depth 1..3, up to 8 polynomial pairs whose coefficients are symbolic integers in [-4,4] (up to a million where the fraction '
                   'is an integer), functions x, 1/x, x^2, 1/x^2, x^3, sqrt, accuracies 1..6, integer parts kept or ignored, builds '
                   'followed by overlapping builds, further functions, a restored table and a second accuracy',
          'thorough': 'as quick with coefficients in [-9,9]'}


def cases(tier):
    B = 4 if tier == 'quick' else 9
    out = []
    for trunc in (True, False):
        for fs in ((0,), (0, 1), (1, 2), (2, 3), (10,), (0, 11)):
            out.append(dict(kind='int', trunc=trunc, fs=list(fs), n=4, B=B if len(fs) > 1 or fs[0] == 10 else 10 ** 6))
            out.append(dict(kind='frac', trunc=trunc, fs=list(fs), n=3, B=B if fs[-1] < 11 else B - 2))
        for fs in ((0,), (0, 1)):
            out.append(dict(kind='undef', trunc=trunc, fs=list(fs), n=3, B=B))
        out.append(dict(kind='custom', trunc=trunc, fs=[1, 0], n=5, B=B))
        # functions without a value (NaN, infinity, zero) between those that have one
        for fs in ([1, 0, 4, 3, 2, 5], [5, 4, 3, 2, 1, 0]):
            out.append(dict(kind='holes', trunc=trunc, fs=fs, n=4, B=B))
        out.append(dict(kind='collide', trunc=trunc, fs=[0, 2], n=1, B=B))
    for val in (True, False):
        for fs2 in ((0, 2), (0, 1, 2), (1, 0, 10), (3,)):
            out.append(dict(kind='extend', trunc=True, fs=[0, 2], fs2=list(fs2), n=3, B=B, val=val))
        out.append(dict(kind='restored', trunc=True, fs=[0, 2], fs2=[0, 1], n=3, B=B, val=val))
    out.append(dict(kind='reprec', trunc=True, fs=[0], n=2, B=B))
    out.append(dict(kind='sparse', trunc=True, fs=[0, 1], n=4, B=2))
    out.append(dict(kind='indexed', trunc=True, fs=[0, 1], n=4, B=2))
    out.append(dict(kind='roots', trunc=True, fs=[0], n=4, B=B))
    for c in out:
        c['_opts'] = dict(tables=True)
    return out


def pev(p, i):
    r = 0
    for j, c in enumerate(p):
        r = r + c * i ** j
    return r


def fraction(env, pa, pb, depth):
    """value of the fraction of depth terms from the inside; None when a division by zero occurs"""
    v = env.mpf(0) + pev(pa[(depth - 1) % len(pa)], depth - 1)
    for i in range(depth - 1, 0, -1):
        if v == 0:
            return None
        v = pev(pa[(i - 1) % len(pa)], i - 1) + pev(pb[i % len(pb)], i) / v
    return v


FN = {0: lambda env, x: x, 2: lambda env, x: x * x, 4: lambda env, x: x * x * x, 10: lambda env, x: env.fn('sqrt')(x) if x >= 0 else None}


def function(env, i, v):
    """None: undefined or infinite"""
    w = FN[i - i % 2](env, v)
    if w is None or not i % 2:
        return w
    return None if w == 0 else 1 / w


def key(env, w, trunc):
    w = env.abs(w)
    return w - env.floor(w) if trunc else w


def digits_equal(env, x, y, n):
    """same leading n+1 digits, for values below 10**6"""
    L = 1
    for e in range(1, 12):
        bx, by = bool(x >= 10 ** e), bool(y >= 10 ** e)
        if bx != by:
            return False
        if not bx:
            break
        L += 1
    k = max(n + 1 - L, 0)
    if L > n + 1:
        # the text is cut within the integer part (the point is a character, too)
        q = 10 ** (L - n - 2) if L > n + 2 else 1
        return bool(env.same(env.floor(x / q), env.floor(y / q)))
    return bool(env.same(env.floor(x * 10 ** k), env.floor(y * 10 ** k)))


def expected(env, pairs, fs, depth, trunc):
    out = []
    for pa, pb in pairs:
        v = fraction(env, pa, pb, depth)
        if v is None or v == 0:
            continue
        for i in fs:
            w = function(env, i, v)
            if w is None or w == 0:
                continue
            out.append((((pa, pb), i), key(env, w, trunc)))
    return out


def tup(ps):
    return tuple(tuple(p) for p in ps)


def expand(env, ra, rb, cond=None):
    """every choice of the ranges, squeezed as the enumeration does"""
    from props.common import product

    def side(r):
        return [tup(c) for c in product([product([list(range(0, hi - lo)) if False else [lo + d for d in range(n)] for lo, n in p])
                                         for p in r])]

    def squeeze(ps):
        for p in ps[1:]:
            if not bool(env.same(p, ps[0])):
                return ps
        return ps[:1]
    out = []
    for a in side(ra):
        for b in side(rb):
            if any(all(bool(c == 0) for c in p) for p in b):
                continue            # a b polynomial which is zero everywhere
            out.append((squeeze(a), squeeze(b)))
    return out


def ranges(r):
    return [[[lo, lo + n] for lo, n in p] for p in r]


def check_table(env, m, exp, label):
    t = m.dec_hashtable
    total = 0
    for k in list(t):
        if k == 'parameters':
            continue
        total += len(t[k])
    env.check_same(total, len(exp), label + ': number of entries')
    for e, k in exp:
        got = t.get(k, [])
        env.check_same(sum(1 for g in got if bool(env.same([g[0][0], g[0][1], g[1]], [e[0][0], e[0][1], e[1]]))), 1,
                       label + ': stored once under its digits')


def run(env, kind, trunc, fs, n, B, fs2=(), val=True):
    ep = env.mod('enum_params')
    polys = env.mod('enum_poly_params')
    depth = {'int': 1, 'frac': 2, 'undef': 3, 'collide': 2, 'extend': 2, 'restored': 2, 'reprec': 2}.get(kind, 2)
    kw = dict(target_generator=lambda: env.mpf('3.25'), postproc_funcs_filter=tuple(fs), trunc_integer=trunc, hashtable_prec=n,
              enum_only_exp_conv=False, num_of_iterations=depth, prec=60)

    def I(name):
        return env.int(name, -B, B) if B else env.int(name)
    if kind == 'int':
        s = I('s')
        ra, rb = [[(s, 2)]], [[(1, 1), (1, 1)]]
    elif kind in ('frac', 'collide', 'reprec'):
        s, t = I('s'), I('t')
        ra, rb = [[(s, 2)], [(3, 1)]], [[(1, 1)], [(t, 2)]]
    elif kind == 'undef':
        s, u, t = 2, env.int('u', -1, 1), I('t')
        ra, rb = [[(s, 1)], [(u, 2)], [(2, 1)]], [[(2, 1)], [(t, 1)]]
        # b2 = 2, so that the fraction is s + t/(u + 2/2)
    elif kind == 'custom':
        kw['postproc_funcs'] = [lambda x: x, lambda x: 3 * x]
        kw['postproc_funcs_text'] = ['lambda x: x', 'lambda x: 3*x']
        s, t = I('s'), I('t')
        ra, rb = [[(s, 1)], [(7, 1)]], [[(1, 1)], [(t, 2)]]
    elif kind == 'holes':
        kw['postproc_funcs'] = [lambda x: env.mpf('nan'), lambda x: x, lambda x: env.mpf('inf'), lambda x: 3 * x, lambda x: x - x,
                                lambda x: x + 1]
        kw['postproc_funcs_text'] = ['lambda x: nan', 'lambda x: x', 'lambda x: inf', 'lambda x: 3*x', 'lambda x: x-x', 'lambda x: x+1']
        s, t = I('s'), I('t')
        ra, rb = [[(s, 1)], [(7, 1)]], [[(1, 1)], [(t, 1)]]
    elif kind in ('extend', 'restored'):
        s, t = I('s'), env.int('t', 1, 2)
        ra, rb = [[(s, 1)], [(3, 1)]], [[(1, 1)], [(t, 2)]]
    elif kind == 'sparse':
        s, t = I('s'), I('t')
        m = ep.MITM(ab_poly_class=polys.SparseParameterEnumPolyParams, ab_poly_special_params=(2, 2), **kw)
        m.build_hashtable([[[s, s + 1]]], [[[t, t + 1]]])
        pairs = [] if bool(t == 0) else [((a,), (b,)) for a in ((s, 0), (0, s)) for b in ((t, 0), (0, t))]
        if bool(s == 0) and pairs:
            pairs = [((a,), (b,)) for a in ((0, 0),) for b in ((t, 0), (0, t))]
        check_table(env, m, expected(env, pairs, fs, depth, trunc), 'sparse')
        return
    elif kind == 'indexed':
        s, t = I('s'), I('t')
        m = ep.MITM(ab_poly_class=polys.IndexedParameterEnumPolyParams, **kw)
        m.build_hashtable([[[s, s + 1], [1, 2]]], [[[t, t + 1]]])
        pairs = [] if bool(t == 0) else [(((1, s + 1),), ((t,),))]
        check_table(env, m, expected(env, pairs, fs, depth, trunc), 'indexed')
        return
    elif kind == 'roots':
        # positive integer roots are left out, and the degree filter works
        s = I('s')
        env.assume(s != 0)
        kw['enum_only_exp_conv'] = True
        m = ep.MITM(**kw)
        m.build_hashtable([[[s, s + 1], [1, 2]]], [[[-2, -1], [1, 2]], ])
        check_table(env, m, [], 'b with root 2')
        m.build_hashtable([[[s, s + 1]]], [[[3, 4], [1, 2]], ])
        check_table(env, m, [], 'degree')
        m.build_hashtable([[[s, s + 1], [1, 2]]], [[[3, 4], [2, 3]], ])
        check_table(env, m, expected(env, [(((s, 1),), ((3, 2),))], fs, depth, trunc), 'kept')
        return
    pairs = expand(env, ra, rb)
    m = ep.MITM(**kw)
    if kind == 'custom':
        exp = []
        for pa, pb in pairs:
            v = fraction(env, pa, pb, depth)
            if v is not None and not v == 0:
                exp += [(((pa, pb), i), key(env, v * (3 if i else 1), trunc)) for i in fs]
    elif kind == 'holes':
        exp = []
        for pa, pb in pairs:
            v = fraction(env, pa, pb, depth)
            if v is not None and not v == 0:
                for i, w in ((1, v), (3, v * 3), (5, v + 1)):
                    if not w == 0:
                        exp.append((((pa, pb), i), key(env, w, trunc)))
    else:
        exp = expected(env, pairs, fs, depth, trunc)
    m.build_hashtable(ranges(ra), ranges(rb))
    check_table(env, m, exp, 'built')
    if kind == 'collide':
        # found exactly under the digits: another value is not reported
        y = env.real('y', 0, 1)
        env.assume(y < 1)
        want = [e for e, k in exp if digits_equal(env, k, y, n)]
        same_bag(env, [[g[0][0], g[0][1], g[1]] for g in m.dec_hashtable.get(y, [])], [[e[0][0], e[0][1], e[1]] for e in want],
                 'entries of a value')
    elif kind in ('extend', 'restored'):
        if kind == 'restored':
            table = env.pickle(m.dec_hashtable)
            table['parameters'] = {'ab_polys': 'x'}
            m = ep.MITM(**kw)
            m.dec_hashtable = table
        m.postproc_funcs_filter = tuple(fs2)
        rb2 = [[(1, 1)], [(t + 1, 2)]]
        new = expand(env, ra, rb2)
        m.build_hashtable(ranges(ra), ranges(rb2), validate_entry_doesnt_exist=val)
        add = expected(env, new, fs2, depth, trunc)
        allx = list(exp)
        for e, k in add:
            if not any(bool(env.same([e[0][0], e[0][1], e[1]], [q[0][0], q[0][1], q[1]])) for q, _ in exp):
                allx.append((e, k))
        check_table(env, m, allx, 'extended')
        if kind == 'restored':
            env.check_same(m.dec_hashtable['parameters'], {'ab_polys': 'x'}, 'stored parameters kept')
        m.build_hashtable(ranges(ra), ranges(rb2), validate_entry_doesnt_exist=val)
        check_table(env, m, allx, 'built again')
    elif kind == 'reprec':
        m.redefine_settings(target_generator=lambda: env.mpf('3.25'), postproc_funcs_filter=(0, 1), trunc_integer=True,
                            hashtable_prec=4, prec=60)
        env.check_same(m.filtered_params, [], 'results forgotten')
        check_table(env, m, exp, 'entries survive new settings')
        m.build_hashtable(ranges(ra), ranges(rb))
        add = expected(env, pairs, (1,), depth, trunc)
        check_table(env, m, exp + add, 'extended under the new accuracy')
