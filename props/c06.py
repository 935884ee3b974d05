"""C06: polynomial enumeration is exact and once-only."""
from props.common import nested, term, same_bag, product
ID = 'C06'
ASSUMPTIONS = ['the root and degree filters are off (they are the subject of C08)']
BOUNDS = {'quick': 'every lower bound is an unbounded symbolic integer; widths 0..3 (fixed mixes up to 32 pairs, or one symbolic '
                   'width 0..3); interlaces of up to 3 polynomials with up to 3 coefficients; continued fractions run for 0..4 '
                   'iterations; two enumerations of one enumerator interleaved',
          'thorough': 'as quick with up to 150 pairs and widths up to 5'}

# widths per coefficient: list of polynomials, each a list of widths
SHAPES = [([[2]], [[3]]), ([[2, 2]], [[2]]), ([[1, 3, 1]], [[2, 1, 2]]), ([[2], [2]], [[2]]), ([[2]], [[2], [3]]),
          ([[2, 1], [2, 2]], [[1]]), ([[1]], [[2, 2], [1, 2]]), ([[2], [2]], [[2], [2]]), ([[2], [2], [2]], [[2]]),
          ([[1]], [[2], [2], [1]]), ([[2], [1, 2]], [[2, 1], [2]]), ([[0]], [[2]]), ([[3]], [[2, 0]]), ([[1], [1]], [[3]]),
          ([[3]], [[1], [1]]), ([[1], [1], [1]], [[1], [1], [1]])]
BIG = [([[3, 2], [2, 2]], [[2, 2]]), ([[5]], [[5]]), ([[2], [2], [2], [2]], [[2], [2]]), ([[3], [3]], [[2], [3]])]


def cases(tier):
    th = tier != 'quick'
    out = []
    for i, (a, b) in enumerate(SHAPES + (BIG if th else [])):
        out.append(dict(kind='enum', wa=a, wb=b))
    # equal lower bounds, so that interlaces can collapse
    for a, b in (([[2], [2]], [[2], [2]]), ([[2, 2], [2, 2]], [[1]]), ([[1]], [[3], [3]]), ([[2], [2], [2]], [[2]]),
                 ([[1]], [[2], [2], [2]]), ([[2, 1], [2, 1]], [[2], [2]])):
        out.append(dict(kind='enum', wa=a, wb=b, tie=1))
    for pos in range(4):
        out.append(dict(kind='width', pos=pos, W=5 if th else 3))
    for n in (0, 1, 2, 3):
        out.append(dict(kind='frac', wa=[[2]], wb=[[2]], n=n))
        out.append(dict(kind='frac', wa=[[1]], wb=[[2, 1]], n=min(n, 2)))
        out.append(dict(kind='frac', wa=[[1], [2]], wb=[[2], [1]], n=min(n, 2)))
        out.append(dict(kind='frac', wa=[[2], [2]], wb=[[2], [2]], n=min(n, 2), tie=1))
    # deeper, with the a polynomials concrete and positive
    for n in (5, 8) if not th else (5, 8, 12):
        out.append(dict(kind='frac', wa=[[2]], wb=[[2]], n=n, fix=1, _opts=dict(timeout_ms=3000)))
        out.append(dict(kind='frac', wa=[[1], [2]], wb=[[1, 1]], n=n, fix=1, _opts=dict(timeout_ms=3000)))
    out.append(dict(kind='frac', wa=[[2]], wb=[[2]], n=3, zero=0))
    out.append(dict(kind='frac', wa=[[1], [2]], wb=[[1, 2]], n=2, zero=0))
    out.append(dict(kind='mixed'))
    return out


def ranges(env, pre, widths, tie=0, fix=0):
    out = []
    if fix:
        return [[[1 + i + j, 1 + i + j + w] for j, w in enumerate(ws)] for i, ws in enumerate(widths)]
    for i, ws in enumerate(widths):
        row = []
        for j, w in enumerate(ws):
            lo = env.int('%s%d_%d' % (pre, 0 if tie else i, j))
            row.append([lo, lo + w])
        out.append(row)
    return out


def choices(rs):
    """all coefficient choices of ranges with concrete widths"""
    per = []
    for row in rs:
        cs = [[lo + k for k in range(w)] for lo, w in row]
        per.append(product(cs))
    return product(per)


def squeeze(env, ps):
    if len(ps) > 1:
        for p in ps[1:]:
            if not bool(env.same(tuple(p), tuple(ps[0]))):
                return tuple(ps)
        return (ps[0],)
    return tuple(ps)


def widths(rs, ws):
    return [[(r[0], w) for r, w in zip(row, wrow)] for row, wrow in zip(rs, ws)]


def norm(pair):
    return tuple(tuple(tuple(p) for p in ps) for ps in pair)


def run(env, kind, wa=(), wb=(), tie=0, n=0, pos=0, W=0, zero=1, fix=0):
    ep = env.mod('enum_poly_params')
    cf = env.mod('cont_fracs')
    if kind == 'enum':
        ra, rb = ranges(env, 'a', wa, tie), ranges(env, 'b', wb, tie)
        e = ep.BasicEnumPolyParams(should_gen_contfrac=False, avoid_int_roots=False)
        got = [norm(x) for x in e.polys_generator(ra, rb)[0]]
        want = [(squeeze(env, a), squeeze(env, b)) for a in choices(widths(ra, wa)) for b in choices(widths(rb, wb))]
        same_bag(env, got, want, 'each pair once and nothing else')
        # a second enumeration of the same enumerator
        again = [norm(x) for x in e.polys_generator(ra, rb, 50)[0]]
        same_bag(env, again, want, 'each pair once in a second enumeration')
        env.obs('got', got[:3])
    elif kind == 'width':
        w = env.conc(env.int('w', 0, W))
        ws = [[2], [1, 2], [2]]
        wa, wb = [[2, 1]], [[2], [1]]
        if pos < 2:
            wa[0][pos] = w
        else:
            wb[pos - 2][0] = w
        ra, rb = ranges(env, 'a', wa), ranges(env, 'b', wb)
        e = ep.BasicEnumPolyParams(should_gen_contfrac=False, avoid_int_roots=False)
        got = [norm(x) for x in e.polys_generator(ra, rb)[0]]
        want = [(squeeze(env, a), squeeze(env, b)) for a in choices(widths(ra, wa)) for b in choices(widths(rb, wb))]
        same_bag(env, got, want, 'each pair once for every width')
    elif kind == 'frac':
        ra, rb = ranges(env, 'a', wa, tie, fix), ranges(env, 'b', wb, tie)
        e = ep.BasicEnumPolyParams(num_of_iterations=n, should_gen_contfrac=True, avoid_int_roots=False,
                                   avoid_zero_b=bool(zero))
        got = []
        for c, pa, pb in e.polys_generator(ra, rb)[0]:
            pa, pb = norm((pa, pb))
            N, D = nested(lambda i: term(pa, i), lambda i: term(pb, i), n)
            env.check_same(c.get_p_q(), (N, D), 'the fraction of the pair yielded with it')
            env.check_same(c.get_num_of_executed_iters(), n, 'the requested number of iterations')
            got.append((pa, pb))
        want = []
        for a in choices(widths(ra, wa)):
            for b in choices(widths(rb, wb)):
                a1, b1 = squeeze(env, a), squeeze(env, b)
                bad = False
                for i in range(1, n + 1):
                    if zero and not bad and term(b1, i) == 0:
                        bad = True
                if not bad:
                    want.append((a1, b1))
        same_bag(env, got, want, 'each pair without a vanishing numerator once')
    elif kind == 'mixed':
        # two enumerations of one enumerator, consumed alternately
        ra, rb = ranges(env, 'a', [[2]]), ranges(env, 'b', [[2]])
        sa, sb = ranges(env, 'c', [[2]]), ranges(env, 'd', [[2]])
        e = ep.BasicEnumPolyParams(num_of_iterations=1, should_gen_contfrac=True, avoid_int_roots=False, avoid_zero_b=False)
        g, h = e.polys_generator(ra, rb)[0], e.polys_generator(sa, sb)[0]
        l1, l2 = [], []
        for k in range(4):
            for it, l in ((g, l1), (h, l2)):
                c, pa, pb = next(it)
                pa, pb = norm((pa, pb))
                env.check_same(c.get_p_q(), nested(lambda i: term(pa, i), lambda i: term(pb, i), 1), 'the fraction of its pair')
                l.append((c, (pa, pb)))
        for k in (0, 1):
            l, r, s = ((l1, ra, rb), (l2, sa, sb))[k]
            same_bag(env, [x[1] for x in l], [(a, b) for a in choices(widths(r, [[2]])) for b in choices(widths(s, [[2]]))],
                     'each pair once in alternating enumerations')
