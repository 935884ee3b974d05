"""C12: ULCD enumeration."""
from props.common import same_bag
ID = 'C12'
ASSUMPTIONS = ['the constant is a nonzero finite number']
BOUNDS = {'quick': 'each of the four ranges in turn symbolic: an integer 0..4, or a two- or three-element list or tuple with both '
                   'ends in -3..3 and step 1..3 (also -1), with the other three fixed; all four given in different forms together; '
                   'any nonzero constant',
          'thorough': 'as quick with two ranges symbolic at a time'}


def cases(tier):
    out = []
    for which in range(4):
        for form in ('int', 'list', 'tuple', 'step', 'iter', 'neg'):
            out.append(dict(kind='one', which=which, form=form))
    for f in range(3):
        out.append(dict(kind='fixed', f=f))
    out.append(dict(kind='repeat'))
    if tier != 'quick':
        for w in range(4):
            for form in ('int', 'list'):
                for w2 in range(w):
                    out.append(dict(kind='two', which=w, which2=w2, form=form))
    return out


def expand(r, d=False):
    """documented meaning of a range argument"""
    if isinstance(r, int):
        return list(range(1, r + 1)) if d else list(range(-r, r + 1))
    if isinstance(r, (list, tuple)) and len(r) in (2, 3):
        st = r[2] if len(r) == 3 else 1
        out, v = [], r[0]
        while (v < r[1]) if st > 0 else (v > r[1]):
            out.append(v)
            v += st
        return out
    return list(r)


def sym_range(env, form, k=''):
    c = lambda n, a, b: env.conc(env.int(n + k, a, b))
    if form == 'int':
        return c('n', 0, 4)
    if form == 'list':
        return [c('lo', -3, 3), c('hi', -3, 3)]
    if form == 'tuple':
        return (c('lo', -2, 2), c('hi', -2, 3))
    if form == 'step':
        return [c('lo', -3, 1), c('hi', -1, 3), c('st', 1, 3)]
    if form == 'neg':
        return [c('lo', -1, 2), c('hi', -3, 1), -1]
    return [3, 0, -2, c('v', -2, 2) * 4 + 1, 7]


def check(env, le, ranges, x):
    e = le.ULCDEnumerator(ranges, x)
    got = []
    for o in e.generator():
        p = tuple(o.get_params())
        u, l, c, d = p
        env.check_same(o.get_val(), (u / x + x / l + c) / d, 'value of the yielded form')
        env.check_same(o.get_target_const(), x, 'constant of the yielded form')
        got.append(p)
        # taking a copy, as the search does, and editing it does not disturb the enumeration
        q = le.ULCDEvaluator(o)
        q.flip_sign()
        q.add_int(5)
    U, L, C, D = [expand(r, i == 3) for i, r in enumerate(ranges)]
    want = [(u, l, c, d) for u in U for l in L for c in C for d in D if l != 0 and d != 0 and abs(c) < abs(d)]
    same_bag(env, got, want, 'each admissible parameter set once and nothing else')
    return got


def run(env, kind, which=0, which2=0, form='', f=0):
    le = env.mod('lhs_evaluators')
    x = env.real('x')
    env.assume(x != 0)
    base = [[-1, 1], [1, 3], [0, 2], [2, 4]]
    if kind == 'one':
        if which == 3:
            base[2] = 2
        if which == 2:
            base[3] = [-4, 4]
        base[which] = sym_range(env, form)
        got = check(env, le, base, x)
        env.obs('n', len(got))
    elif kind == 'two':
        base[which] = sym_range(env, form)
        base[which2] = sym_range(env, form, 'b')
        check(env, le, base, x)
    elif kind == 'fixed':
        check(env, le, ((2, 1, 3, 3), ([-2, 3], (1, 6, 2), 2, [-3, 4]), (0, range(-2, 3), [5, -5, 0, 1], (1, 3)))[f], x)
    else:
        # one enumerator used twice, and two alternating
        e = le.ULCDEnumerator([1, 1, 1, 2], x)
        h = le.ULCDEnumerator([[0, 1], [2, 4], [0, 1], 1], x)
        want = [tuple(o.get_params()) for o in h.generator()]
        a = [tuple(o.get_params()) for o in e.generator()]
        g1, g2 = e.generator(), h.generator()
        b = []
        for k in range(len(a)):
            o = next(g1)
            p = tuple(o.get_params())
            if k < len(want):
                env.check_same(tuple(next(g2).get_params()), want[k], 'alternating enumerations')
            u, l, c, d = p
            env.check_same(o.get_val(), (u / x + x / l + c) / d, 'value of the yielded form')
            b.append(p)
        same_bag(env, b, a, 'a second enumeration gives the same')
