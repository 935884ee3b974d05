"""C07: indexed and sparse enumerations expand to exactly the documented polynomials."""
import itertools
from props.common import peval, same_bag, product
ID = 'C07'
ASSUMPTIONS = ['the root and degree filters are off (they are the subject of C08)']
BOUNDS = {'quick': 'unbounded symbolic coefficients. Indexed: up to 6 nonzero coefficients in polynomials of up to 34 coefficients, '
                   'interlaces of up to 3, evaluated at a symbolic point; sparse: sizes up to 6, up to 3 enumerated coefficients, '
                   'interlaces of up to 3, up to 216 placements, ranges of 1..2 values',
          'thorough': 'as quick with up to 8 coefficients, polynomials of up to 60 and up to 1000 placements'}


def cases(tier):
    th = tier != 'quick'
    out = []
    for a, b in (([1], [1]), ([2], [2]), ([3], [4]), ([5], [3]), ([6], [1]), ([2, 2], [3]), ([3, 2], [1, 2]), ([1, 2, 3], [2]),
                 ([1], [1, 1, 4])) + ((([8], [2]), ([4, 4], [4])) if th else ()):
        out.append(dict(kind='indexed', la=a, lb=b))
    for n, pos in ((12, (0, 5, 11)), (24, (0, 23)), (34, (2, 15, 33))) + (((60, (0, 30, 31, 59)),) if th else ()):
        out.append(dict(kind='long', n=n, pos=pos))
    out.append(dict(kind='indexed_range'))
    for na, nb, ka, kb in ((1, 1, [1], [1]), (3, 2, [1], [1]), (3, 3, [2], [1]), (4, 3, [2], [2]), (2, 3, [2], [3]), (5, 4, [3], [1]),
                           (3, 2, [1, 1], [1]), (2, 3, [1], [2, 2]), (3, 3, [2, 2], [1]), (2, 2, [1, 1, 1], [1]), (6, 1, [1], [1]),
                           (3, 2, [1, 1, 1], [1, 1]), (2, 3, [2, 2], [3, 3]), (4, 2, [2, 2], [1, 1]), (3, 2, [0], [1]),
                           (2, 2, [3], [1])) + (((6, 4, [3], [2]), (4, 3, [2, 2], [1, 1]), (3, 3, [1, 1, 1], [1, 1])) if th else ()):
        out.append(dict(kind='sparse', na=na, nb=nb, ka=ka, kb=kb))
    out.append(dict(kind='sparse_range'))
    out.append(dict(kind='sparse_mixed'))
    return out


def norm(pair):
    return tuple(tuple(tuple(p) for p in ps) for ps in pair)


def single(env, pre, lens):
    cs = [[env.int('%s%d_%d' % (pre, i, j)) for j in range(n)] for i, n in enumerate(lens)]
    return cs, [[[c, c + 1] for c in row] for row in cs]


def power(x, n):
    r = 1
    for _ in range(n):
        r = r * x
    return r


def placements(coeffs, n):
    """every placement of the coefficients, in order, in a polynomial of size n"""
    out = []
    for pos in itertools.combinations(range(n), len(coeffs)):
        p = [0] * n
        for c, i in zip(coeffs, pos):
            p[i] = c
        out.append(tuple(p))
    return out


def squeeze(env, ps):
    if len(ps) > 1:
        for p in ps[1:]:
            if not bool(env.same(tuple(p), tuple(ps[0]))):
                return tuple(ps)
        return (ps[0],)
    return tuple(ps)


def run(env, kind, la=(), lb=(), n=0, pos=(), na=0, nb=0, ka=(), kb=()):
    ep = env.mod('enum_poly_params')
    opts = dict(should_gen_contfrac=False, avoid_int_roots=False)
    if kind in ('indexed', 'long'):
        if kind == 'indexed':
            ca, ra = single(env, 'a', la)
            cb, rb = single(env, 'b', lb)
        else:
            p = [0] * n
            for i in pos:
                p[i] = env.int('a%d' % i)
            ca, ra = [p], [[[c, c + 1] for c in p]]
            cb, rb = single(env, 'b', [2])
        e = ep.IndexedParameterEnumPolyParams(**opts)
        got = [norm(x) for x in e.polys_generator(ra, rb)[0]]
        env.check_same(len(got), 1, 'one pair')
        X = env.int('X')
        for coeffs, polys in zip((ca, cb), got[0]):
            # an interlace of equal polynomials may be reported as one
            if len(polys) != len(coeffs):
                env.check(len(polys) == 1, 'number of interlaced polynomials')
                polys = polys * len(coeffs)
            for cs, p in zip(coeffs, polys):
                m = len(cs) - 1
                want = 0
                for i, c in enumerate(cs):
                    want = want + c * power(X + i, m)
                env.check(len(p) == len(cs), 'number of coefficients')
                env.check_same(peval(p, X), want, 'the indexed polynomial')
        env.obs('got', got)
    elif kind == 'indexed_range':
        x, y, z = env.int('x'), env.int('y'), env.int('z')
        e = ep.IndexedParameterEnumPolyParams(**opts)
        got = [norm(t) for t in e.polys_generator([[[x, x + 2], [y, y + 2]]], [[[z, z + 2]]])[0]]
        want = [((((j), (i + j)),), ((k,),)) for i in (x, x + 1) for j in (y, y + 1) for k in (z, z + 1)]
        # c0*X + c1*(X+1)
        want = [(((b, a + b),), ((k,),)) for a in (x, x + 1) for b in (y, y + 1) for k in (z, z + 1)]
        same_bag(env, got, want, 'each choice once')
    elif kind == 'sparse':
        ca, ra = single(env, 'a', ka)
        cb, rb = single(env, 'b', kb)
        e = ep.SparseParameterEnumPolyParams(special_params=(na, nb), **opts)
        got = [norm(x) for x in e.polys_generator(ra, rb)[0]]
        wa = [squeeze(env, t) for t in product([placements(c, na) for c in ca])]
        wb = [squeeze(env, t) for t in product([placements(c, nb) for c in cb])]
        same_bag(env, got, [(a, b) for a in wa for b in wb], 'every placement exactly once')
        env.obs('n', len(got))
    elif kind == 'sparse_range':
        x, y = env.int('x'), env.int('y')
        e = ep.SparseParameterEnumPolyParams(special_params=(3, 2), **opts)
        got = [norm(t) for t in e.polys_generator([[[x, x + 2], [y, y + 1]]], [[[x, x + 2]]])[0]]
        wa = [p for c in ((x, y), (x + 1, y)) for p in placements(c, 3)]
        wb = [p for c in ((x,), (x + 1,)) for p in placements(c, 2)]
        same_bag(env, got, [((a,), (b,)) for a in wa for b in wb], 'every placement of every choice once')
    elif kind == 'sparse_mixed':
        # two enumerators with different sizes alive at the same time, and repeated use
        x, y = env.int('x'), env.int('y')
        r = [[[x, x + 1]]], [[[y, y + 1]]]
        e = ep.SparseParameterEnumPolyParams(special_params=(3, 1), **opts)
        f = ep.SparseParameterEnumPolyParams(special_params=(1, 4), **opts)
        for _ in range(2):
            for g, n1, n2 in ((e, 3, 1), (f, 1, 4)):
                got = [norm(t) for t in g.polys_generator(*r)[0]]
                same_bag(env, got, [((a,), (b,)) for a in placements((x,), n1) for b in placements((y,), n2)],
                         'each enumerator uses its own sizes')
