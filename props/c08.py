"""C08: integer-root and degree filters."""
from props.common import peval, same_bag, term
ID = 'C08'
ASSUMPTIONS = ['floats are exact: square roots and quotients of coefficients are not rounded',
               'a b polynomial with negative but no positive integer roots may or may not be dropped (not specified)']
BOUNDS = {'quick': 'kept: coefficients unbounded for degree <= 1, |c| <= 12 for degree 2 and any coefficients above; dropped: '
                   'every (x - r)(u x + v) with integers r >= 1, u, v (also separately with all of them at most 12), times x^k, k <= 3, with zero padding; interlaces of '
                   'up to 3 with the offending polynomial at each place; degree filter: up to 4 + 6 coefficients with unbounded '
                   'symbolic leading or trailing coefficients',
          'thorough': 'as quick with kept coefficients up to 40'}


def cases(tier):
    B = 12 if tier == 'quick' else 40
    out = []
    for low, high in ((0, 0), (1, 0), (0, 1), (3, 2)):
        out.append(dict(kind='drop1', low=low, high=high))
        out.append(dict(kind='drop2', low=low, high=high, B=B))
        out.append(dict(kind='keep', low=low, high=high, d=0, B=0))
        out.append(dict(kind='keep', low=low, high=high, d=1, B=0))
        out.append(dict(kind='keep', low=low, high=high, d=2, B=B))
    out.append(dict(kind='drop2', low=0, high=0, B=B, u1=1))
    out.append(dict(kind='drop2', low=0, high=0, B=0, _opts=dict(timeout_ms=30000, weight=5)))
    for d in (3, 4):
        out.append(dict(kind='keep', low=0, high=0, d=d, B=4))
    for m in (2, 3):
        for place in range(m):
            for bad in ('zero', 'root1', 'root2'):
                out.append(dict(kind='inter', m=m, place=place, bad=bad, B=6))
    for bad in ('zero', 'root1', 'root2'):
        out.append(dict(kind='off', bad=bad, B=6))
    out.append(dict(kind='many'))
    out.append(dict(kind='frac'))
    for cls in ('BasicEnumPolyParams', 'IndexedParameterEnumPolyParams', 'SparseParameterEnumPolyParams'):
        out.append(dict(kind='cls', cls=cls))
    for da in range(0, 4):
        for db in range(0, 7, 1 if tier != 'quick' else 2):
            out.append(dict(kind='degree', da=da, db=db, pa=da % 2, pb=db % 3))
    out.append(dict(kind='degsym'))
    out.append(dict(kind='degoff'))
    for m, n in ((2, 1), (1, 2), (2, 2), (2, 3)):
        out.append(dict(kind='deginter', m=m, n=n))
    out.append(dict(kind='degcollapse'))
    return out


def rng(p):
    return [[c, c + 1] for c in p]


def yielded(env, cls, a, b, **opts):
    o = dict(should_gen_contfrac=False)
    o.update(opts)
    e = cls(**o)
    return list(e.polys_generator([rng(p) for p in a], [rng(p) for p in b])[0])


def offending(env, bad, B):
    if bad == 'zero':
        return [0, 0]
    r = env.int('r', 1, B)
    if bad == 'root1':
        u = env.int('u')
        env.assume(u != 0)
        return [0 - r * u, u]
    u, v = env.int('u', -B, B), env.int('v', -B, B)
    env.assume(u != 0)
    env.assume(v != 0)
    return [0 - r * v, v - r * u, u]


def run(env, kind, low=0, high=0, d=0, B=0, u1=0, m=0, n=0, place=0, bad='', cls='', da=0, db=0, pa=0, pb=0):
    ep = env.mod('enum_poly_params')
    E = ep.BasicEnumPolyParams
    if kind == 'drop1':
        r, u = env.int('r', 1), env.int('u')
        env.assume(u != 0)
        b = [0] * low + [0 - r * u, u] + [0] * high
        env.check_same(len(yielded(env, E, [[1]], [b])), 0, 'a linear b with a positive integer root is dropped')
    elif kind == 'drop2':
        r = env.int('r', 1, B or None)
        u = 1 if u1 else env.int('u', -B if B else None, B or None)
        v = env.int('v', -B if B else None, B or None)
        env.assume(u != 0)
        env.assume(v != 0)
        b = [0] * low + [0 - r * v, v - r * u, u] + [0] * high
        env.check_same(len(yielded(env, E, [[1]], [b])), 0, 'a quadratic b with a positive integer root is dropped')
    elif kind == 'keep':
        c = [env.int('c%d' % i, -B if B else None, B if B else None) for i in range(d + 1)]
        env.assume(c[d] != 0)
        if d:
            env.assume(c[0] != 0)
        b = [0] * low + c + [0] * high
        k = len(yielded(env, E, [[1]], [b]))
        env.obs('kept', k)
        if k == 0:
            # dropped, so it must have an integer root: a divisor of c0
            if d == 0:
                env.fail('a constant times a power of x is kept')
            elif d == 1:
                env.check_same(c[0] % c[1], 0, 'a linear b without integer root is kept')
            else:
                roots = [peval(c, t) == 0 for t in range(-B, B + 1) if t != 0]
                env.check(env.Or(*roots), 'a b of higher degree without integer root is kept')
        else:
            env.check_same(k, 1, 'kept once')
    elif kind == 'inter':
        b = [[3, 2], [1, 0, 1], [2]][:m]
        b[place] = offending(env, bad, B)
        env.check_same(len(yielded(env, E, [[1]], b)), 0, 'dropped when any interlaced b offends')
        # nothing is dropped for the roots of a
        env.check_same(len(yielded(env, E, b, [[3, 2]])), 1, 'a polynomials are not filtered')
    elif kind == 'off':
        b = [[3, 2], offending(env, bad, B)]
        env.check_same(len(yielded(env, E, [[1]], b, avoid_int_roots=False)), 1, 'nothing dropped when the filter is off')
    elif kind == 'many':
        # the filter decides for each choice on its own
        x = env.int('x', -6, 6)
        e = E(should_gen_contfrac=False)
        got = [(tuple(tuple(q) for q in a), tuple(tuple(q) for q in b))
               for a, b in e.polys_generator([[[5, 7]]], [[[x, x + 3], [1, 3]]])[0]]
        want = []
        neg = []
        for a in (5, 6):
            for c0 in (x, x + 1, x + 2):
                for c1 in (1, 2):
                    it = (((a,),), ((c0, c1),))
                    if c0 == 0:
                        want.append(it)
                    elif c0 < 0:
                        if c0 % c1 != 0:
                            want.append(it)
                    elif c0 % c1 != 0:
                        want.append(it)
                    else:
                        neg.append(it)
        got = [g for g in got if not any(bool(env.same(g, t)) for t in neg)]
        same_bag(env, got, want, 'only offending choices are dropped')
    elif kind == 'frac':
        x = env.int('x')
        e = E(should_gen_contfrac=True, num_of_iterations=2)
        got = list(e.polys_generator([[[1, 2]]], [[[x, x + 1], [1, 2]]])[0])
        if x < 0:
            env.check_same(len(got), 0, 'dropped with fractions requested')
        elif x == 0:
            env.check_same(len(got), 1, 'kept with fractions requested')
    elif kind == 'cls':
        # the filter looks at the polynomials that are yielded, for every kind of enumeration
        C = getattr(ep, cls)
        r = env.int('r', 1, 20)
        o = dict(should_gen_contfrac=False)
        if 'Sparse' in cls:
            o['special_params'] = (1, 3)
            b = [0 - r, 1]
            e = C(**o)
            got = [tuple(x[1][0]) for x in e.polys_generator([[[1, 2]]], [rng(b)])[0]]
            if env.same(r, 1):
                bad = [(0 - r, 1, 0), (0, 0 - r, 1), (0 - r, 0, 1)]
            else:
                bad = [(0 - r, 1, 0), (0, 0 - r, 1)]
            for g in got:
                for t in bad:
                    env.check(env.Not(env.same(g, t)), 'a sparse b with a positive integer root is dropped')
            if r == 3:
                env.check_same(got, [(-3, 0, 1)], 'a sparse b without one is kept')
        elif 'Indexed' in cls:
            # c0*x + c1*(x+1) = (c0+c1)*x + c1
            c1 = env.int('c1', -20, 20)
            c0 = env.int('c0', -20, 20)
            env.assume(c0 + c1 != 0)
            got = yielded(env, C, [[1]], [[c0, c1]])
            env.assume(c1 != 0)
            if (0 - c1) % (c0 + c1) == 0:
                if (0 - c1) // (c0 + c1) > 0:
                    env.check_same(len(got), 0, 'an indexed b with a positive integer root is dropped')
            else:
                env.check_same(len(got), 1, 'an indexed b without integer root is kept')
        else:
            c0, c1 = env.int('c0', -20, 20), env.int('c1', -20, 20)
            env.assume(c0 * c1 != 0)
            got = yielded(env, C, [[1]], [[c0, c1]])
            if c0 % c1 != 0:
                env.check_same(len(got), 1, 'a linear b without integer root is kept')
            elif c0 // c1 < 0:
                env.check_same(len(got), 0, 'a linear b with a positive integer root is dropped')
    elif kind in ('degree', 'degoff'):
        if kind == 'degoff':
            da, db = 0, 3
        a = [env.int('a%d' % i) for i in range(da)] + [env.int('la')] + [0] * pa
        b = [env.int('b%d' % i, -3, 3) for i in range(min(db, 2))] + [1] * max(0, db - 2) + [env.int('lb')] + [0] * pb
        env.assume(a[da] != 0)
        env.assume(b[db] != 0)
        k = len(yielded(env, E, [a], [b], avoid_int_roots=False, enum_only_exp_conv=kind == 'degree'))
        if kind == 'degree':
            env.check_same(k, 0 if db > 2 * da else 1, 'dropped exactly when deg(b) > 2 deg(a)')
        else:
            env.check_same(k, 1, 'kept when the filter is off')
    elif kind == 'degsym':
        a = [env.int('a%d' % i) for i in range(3)]
        b = [env.int('b%d' % i) for i in range(6)]
        k = len(yielded(env, E, [a], [b], avoid_int_roots=False, enum_only_exp_conv=True))
        da, db = deg(a), deg(b)
        env.assume(da >= 0)
        env.assume(db >= 0)
        env.check_same(k, 0 if db > 2 * da else 1, 'degrees ignore trailing zero coefficients')
    elif kind == 'deginter':
        a = [[env.int('a%d' % i)] for i in range(m)]
        b = [[env.int('b%d' % i), 0, 1, 1] for i in range(n)]
        if m > 1:
            env.assume(a[0][0] != a[1][0])
        if n > 1:
            env.assume(b[0][0] != b[1][0])
        k = len(yielded(env, E, a, b, avoid_int_roots=False, enum_only_exp_conv=True))
        env.check_same(k, 1, 'interlaces are not subject to the degree filter')
    elif kind == 'degcollapse':
        # an interlace of equal polynomials is a single polynomial
        x, y = env.int('x'), env.int('y')
        env.assume(y != 0)
        env.assume(x != 0)
        k = len(yielded(env, E, [[x], [x]], [[1, 0, 0, y]], avoid_int_roots=False, enum_only_exp_conv=True))
        env.check_same(k, 0, 'a collapsed interlace is not an interlace')
        k = len(yielded(env, E, [[x]], [[1, 0, 0, y], [1, 0, 0, y]], avoid_int_roots=False, enum_only_exp_conv=True))
        env.check_same(k, 0, 'a collapsed interlace is not an interlace')


def deg(p):
    for i in range(len(p) - 1, -1, -1):
        if p[i] != 0:
            return i
    return -1
