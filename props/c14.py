"""C14: results are declared equivalent only when they state the same identity."""
from props.common import peval
ID = 'C14'
ASSUMPTIONS = ['ULCD parameters have nonzero l and d, rational functions have nonzero numerator and denominator polynomials (the '
               'enumerated sets)']
BOUNDS = {'quick': 'ULCD: two results with unbounded symbolic parameters and any constant; rational: numerators and denominators of up to '
                   '2 symbolic coefficients of at most 2 in absolute value (3 with symbolic added integers and cubic cases with fixed '
                   'coefficients); a and b polynomials with symbolic coefficients, up to 2 interlaced; all pairs of 8 post-processing '
                   'functions for ULCD and of 4 for rational functions; mixed kinds',
          'thorough': 'as quick with rational coefficients up to 3'}


def cases(tier):
    th = tier != 'quick'
    out = []
    for i in range(8):
        out.append(dict(kind='ulcd', i=i))
    for shape in range(4):
        out.append(dict(kind='ulcd_ab', shape=shape))
        out.append(dict(kind='rat_ab', shape=shape))
    out.append(dict(kind='ulcd_self'))
    out.append(dict(kind='ulcd_scaled'))
    B = 3 if th else 2
    for n1, d1, n2, d2 in ((2, 1, 2, 1), (1, 2, 1, 2), (2, 1, 1, 2)):
        for inv in (0, 1):
            out.append(dict(kind='rat', n1=n1, d1=d1, n2=n2, d2=d2, inv=inv, B=B))
    for f in range(6):
        for inv in (0, 1):
            out.append(dict(kind='fix', f=f, inv=inv, B=B))
    out.append(dict(kind='post'))
    for n, d in ((2, 1), (1, 2), (2, 2)):
        out.append(dict(kind='rat_self', n=n, d=d, B=1 if n + d > 3 else B))
    out.append(dict(kind='mixed'))
    return out


def coef_constant(env, p, q):
    """p/q is constant"""
    n = max(len(p), len(q))
    p, q = list(p) + [0] * (n - len(p)), list(q) + [0] * (n - len(q))
    return env.And(*[p[i] * q[j] == p[j] * q[i] for i in range(n) for j in range(i)]) if n > 1 else True


def mul(p, q):
    r = [0] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            r[i + j] = r[i + j] + x * y
    return r


def sub(p, q):
    n = max(len(p), len(q))
    p, q = list(p) + [0] * (n - len(p)), list(q) + [0] * (n - len(q))
    return [x - y for x, y in zip(p, q)]


def scale(p, k):
    return [k * x for x in p]


def add(p, q):
    return sub(p, scale(q, -1))


def ab_same(env, ab1, ab2):
    """b equal and a equal or negated"""
    (a1, b1), (a2, b2) = ab1, ab2
    neg = tuple(tuple(0 - c for c in p) for p in a2)
    return env.And(env.same(b1, b2), env.Or(env.same(a1, a2), env.same(a1, neg)))


def ulcd(env, k):
    u, l, c, d = [env.int('%s%d' % (s, k)) for s in 'ulcd']
    env.assume(l != 0)
    env.assume(d != 0)
    return u, l, c, d


def ulcd_same(env, p, q):
    """equal up to sign as functions of x: u/x + x/l + c over d, coefficient by coefficient"""
    u1, l1, c1, d1 = p
    u2, l2, c2, d2 = q

    def eq(s):
        return env.And(u1 * d2 == s * u2 * d1, l2 * d2 == s * l1 * d1, c1 * d2 == s * c2 * d1)
    return env.Or(eq(1), eq(-1))


SHAPES = [((1, 1), (1, 1)), ((2,), (1,)), ((1,), (2,)), ((1, 2), (1,))]


def absym(env, k, shape):
    sa, sb = SHAPES[shape]
    return (tuple(tuple(env.int('%s%d_%d_%d' % (k, 0, i, j)) for j in range(n)) for i, n in enumerate(sa)),
            tuple(tuple(env.int('%s%d_%d_%d' % (k, 1, i, j)) for j in range(n)) for i, n in enumerate(sb)))


def run(env, kind, i=0, shape=0, n1=0, d1=0, n2=0, d2=0, inv=0, B=0, f=0, n=0, d=0):
    le = env.mod('lhs_evaluators')
    x = env.mpf('3.1415926')
    U, R = le.ULCDEvaluator, le.RationalFuncEvaluator
    if kind in ('ulcd', 'ulcd_ab', 'ulcd_self', 'ulcd_scaled'):
        p, q = ulcd(env, 1), ulcd(env, 2)
        ab1, ab2 = (((1, 2),), ((3,),)), (((1, 2),), ((3,),))
        j = i
        if kind == 'ulcd_self':
            i = j = env.choice('i', [0, 1, 2, 10])
            ab1 = absym(env, 'r', env.choice('shape', [0, 1, 2, 3]))
            r = (ab1, U(p, x), i, None)
            env.check(U.is_equiv(r, r), 'every result is equivalent to itself')
            env.check(U.is_equiv(r, (ab1, U(r[1]), i, ('exp', (1, 2)))), 'a copy is equivalent')
            return
        if kind == 'ulcd_ab':
            ab1, ab2 = absym(env, 'r', shape), absym(env, 's', shape)
            p = q = (1, 2, 0, 1)
            i = j = env.choice('i', [0, 1])
        elif kind == 'ulcd':
            j = env.choice('j', [0, i])
            if env.flag('neg'):
                ab2 = (((-1, -2),), ((3,),))
        else:
            k = env.int('k', 1, 6)
            env.assume(p[1] % k == 0)
            p = (p[0], p[1], p[2], p[3])
            q = (p[0] * k, p[1] // k, p[2] * k, p[3] * k)
            env.assume(q[1] != 0)
        o1, o2 = U(p, x), U(q, x)
        e = bool(U.is_equiv((ab1, o1, i, None), (ab2, o2, j, None)))
        if e:
            env.check(env.And(i == j, ab_same(env, ab1, ab2), ulcd_same(env, p, q)),
                      'equivalent ULCD results state the same identity')
        elif i == 0 and j == 0:
            (u1, l1, c1, d1), (u2, l2, c2, d2) = p, q
            for k in (1, 2):
                for g in (1, -1):
                    env.check(env.Not(env.And(ab_same(env, ab1, ab2), u1 * k == g * u2, l1 == g * k * l2, c1 * k == g * c2,
                                              env.Or(d1 * k == d2, d1 * k == 0 - d2))), 'signs and redundant factors do not matter')
        env.check_same(tuple(o1.get_params()), p, 'the first left-hand side is unchanged')
        env.check_same(tuple(o2.get_params()), q, 'the second left-hand side is unchanged')
        env.obs('e', e)
    elif kind == 'mixed':
        o1, o2 = U(ulcd(env, 1), x), R(([env.int('a'), 1], [1], 0), x)
        ab = (((1, 2),), ((3,),))
        for i, j in ((0, 0), (0, 1), (1, 1)):
            env.check(not U.is_equiv((ab, o1, i, None), (ab, o2, j, None)), 'different kinds are not equivalent')
            env.check(not R.is_equiv((ab, o2, i, None), (ab, o1, j, None)), 'different kinds are not equivalent')
            env.check(not R.is_equiv((ab, o1, i, None), (ab, o2, j, None)), 'different kinds are not equivalent')
    else:
        pp = env.mod('postprocfuncs')
        ab1 = ab2 = (((1, 2),), ((3,),))
        i, j = (2, 3) if inv else (2, 2)
        if inv and env.flag('order'):
            i, j = j, i
        k1 = k2 = 0
        if kind == 'rat':
            p1, q1, p2, q2 = [[env.int('%s%d' % (s, t), -B, B) for t in range(m)]
                              for s, m in (('p', n1), ('q', d1), ('r', n2), ('s', d2))]
        elif kind == 'fix':
            c = env.int('c', -B, B)
            k1, k2 = env.int('k1'), env.int('k2')
            p1, q1, p2, q2 = (([1, 0, c], [2], [3, 0, 1], [1]), ([1, 2], [c, 1], [1, 2], [1, 1]), ([c, 1], [2, 1], [2, 1], [1, 1]),
                              ([0, 1, 0, c], [1], [1], [0, 1]), ([1, 1], [c], [2], [1, 1]), ([c, 3, 2], [1, 1], [1, 2], [1]))[f]
        elif kind == 'rat_ab':
            ab1, ab2 = absym(env, 'r', shape), absym(env, 's', shape)
            p1, q1, p2, q2 = [1, 1], [2], [1, 1], [2]
            if env.flag('inv'):
                p2, q2 = q2, p2
                i, j = 0, 1
        elif kind == 'post':
            i, j = env.conc(env.int('i', 0, 11)), env.conc(env.int('j', 0, 11))
            p1, q1, p2, q2 = [1, 1], [2], [1, 1], [2]
            if env.flag('inv'):
                p2, q2 = q2, p2
        else:
            p1, q1 = [[env.int('%s%d' % (s, t), -B, B) for t in range(m)] for s, m in (('p', n), ('q', d))]
            if n == d:
                q1 = [env.conc(c) for c in q1]
            k1 = env.int('k')
        for t in (p1, q1):
            env.assume(env.Or(*[c != 0 for c in t]))
        if kind == 'rat_self':
            r = (ab1, R((p1, q1, k1), x), 4, None)
            env.check(R.is_equiv(r, r), 'every result is equivalent to itself')
            env.check(R.is_equiv(r, (ab1, R((list(p1), list(q1), k1), x), 4, None)), 'a copy is equivalent')
            return
        for t in (p2, q2):
            env.assume(env.Or(*[c != 0 for c in t]))
        o1, o2 = R((list(p1), list(q1), k1), x), R((list(p2), list(q2), k2), x)
        # parameter lists may be lists or tuples
        e = None
        exc = env.raises(lambda: env_result.append(bool(R.is_equiv((ab1, o1, i, None), (ab2, o2, j, None)))))
        if exc is not None:
            # inverting a function that is an integer constant is impossible
            env.check(isinstance(exc, ZeroDivisionError) and inv, 'equivalence test fails')
            return
        e = env_result.pop()
        if e:
            env.check(env.Or(i == j, env.And(i // 2 == j // 2, i != j)), 'same or inverse post-processing')
            env.check(ab_same(env, ab1, ab2), 'same continued fraction up to the sign of a')
            if i == j:
                # difference of the functions is constant
                num, den = sub(mul(p1, q2), mul(p2, q1)), mul(q1, q2)
                env.check(coef_constant(env, num, den), 'functions equal up to a constant')
            else:
                # one is the inverse of the other up to added constants
                k = o2.get_params()[2]
                f2 = sub(p2, scale(q2, k - k2))
                num, den = sub(mul(p1, f2), mul(q1, q2)), mul(q1, f2)
                k = o1.get_params()[2]
                f1 = sub(p1, scale(q1, k - k1))
                num2, den2 = sub(mul(p2, f1), mul(q2, q1)), mul(q2, f1)
                env.check(env.Or(coef_constant(env, num, den), coef_constant(env, num2, den2)),
                          'functions inverse up to a constant')
        elif i == j:
            num, den = sub(mul(p1, q2), mul(p2, q1)), mul(q1, q2)
            env.check(env.Not(env.And(ab_same(env, ab1, ab2), coef_constant(env, num, den))), 'an added constant does not matter')
        env.obs('e', e)


env_result = []
