"""C09: announced lengths."""
ID = 'C09'
ASSUMPTIONS = ['lower bounds do not exceed upper bounds']
BOUNDS = {'quick': 'polynomial enumerations: unbounded symbolic lower bounds, one symbolic width 0..3 and others fixed, interlaces of '
                   'up to 3, sparse sizes up to 4; left-hand sides: symbolic range arguments (integers up to 4, lists with '
                   'symbolic ends and steps), symbolic constant; lengths of unenumerated ranges with unbounded widths',
          'thorough': 'as quick with widths up to 5'}


def cases(tier):
    W = 3 if tier == 'quick' else 5
    out = []
    for cls in ('Basic', 'Indexed', 'Sparse'):
        for shape in range(6 if tier != 'quick' or cls != 'Indexed' else 5):
            for filt in (0, 1):
                out.append(dict(kind='poly', cls=cls, shape=shape, W=W, filt=filt))
        out.append(dict(kind='frac', cls=cls))
        out.append(dict(kind='formula', cls=cls))
    for which in range(4):
        for form in ('int', 'list', 'step'):
            out.append(dict(kind='ulcd', which=which, form=form, W=W))
    for which in range(4):
        out.append(dict(kind='rat', which=which, W=W))
    return out


SHAPES = [([[2]], [[2]]), ([[2, 1]], [[1, 2]]), ([[1], [2]], [[2]]), ([[1]], [[2, 1], [1, 1]]), ([[2], [1], [1]], [[1]]),
          ([[1, 2], [1, 1]], [[1], [1]])]


def make(ep, cls, a, b, **o):
    C = getattr(ep, {'Basic': 'BasicEnumPolyParams', 'Indexed': 'IndexedParameterEnumPolyParams',
                     'Sparse': 'SparseParameterEnumPolyParams'}[cls])
    if cls == 'Sparse':
        o['special_params'] = (len(a[0]) + (1 if len(a) == 1 else 0), len(b[0]) + (2 if len(b) == 1 else 1))
    return C(**o)


def run(env, kind, cls='', shape=0, W=0, filt=0, which=0, form=''):
    ep = env.mod('enum_poly_params')
    if kind in ('poly', 'frac'):
        a, b = SHAPES[shape]
        w = env.conc(env.int('w', 0, W))
        side, i = (('a', 0), ('b', 0))[0 if env.flag('side') else 1]
        rs = []
        for s, ws in (('a', a), ('b', b)):
            r = []
            for i, row in enumerate(ws):
                rr = []
                for j, k in enumerate(row):
                    lo = env.int('%s%d_%d' % (s, i, j))
                    if s == side and i == 0 and j == 0:
                        k = w
                    rr.append([lo, lo + k])
                r.append(rr)
            rs.append(r)
        if kind == 'poly' and not filt:
            e = make(ep, cls, a, b, should_gen_contfrac=False, avoid_int_roots=False)
            g, n = e.polys_generator(rs[0], rs[1])
            k = len(list(g))
            env.check_same(n, k, 'announced length of an unfiltered enumeration')
            env.obs('n', k)
        else:
            if kind == 'frac':
                e = make(ep, cls, a, b, should_gen_contfrac=True, avoid_int_roots=True, num_of_iterations=2)
            else:
                # concrete coefficients: which of them the filters drop is the subject of C08
                rs = [[[[-1 + j, -1 + j + r[1] - r[0]] for j, r in enumerate(row)] for row in rr] for rr in rs]
                e = make(ep, cls, a, b, should_gen_contfrac=False, avoid_int_roots=True, enum_only_exp_conv=True)
            g, n = e.polys_generator(rs[0], rs[1])
            k = len(list(g))
            env.check(n >= k, 'announced length of a filtered enumeration')
            if kind == 'poly':
                # and it does not depend on the filters
                f = make(ep, cls, a, b, should_gen_contfrac=False, avoid_int_roots=False)
                env.check_same(f.polys_generator(rs[0], rs[1])[1], n, 'the announcement does not depend on filters')
    elif kind == 'formula':
        # not enumerated: any widths
        lo = [env.int('l%d' % i) for i in range(5)]
        hi = [env.int('h%d' % i) for i in range(5)]
        for l, h in zip(lo, hi):
            env.assume(l <= h)
        r = [[l, h] for l, h in zip(lo, hi)]
        a, b = [r[0:2], r[2:4]], [r[4:5]]
        e = make(ep, cls, a, b, should_gen_contfrac=False)
        n = e.polys_generator(a, b)[1]
        want = 1
        for l, h in zip(lo, hi):
            want = want * (h - l)
        if cls == 'Sparse':
            want = want * 1 * 3
        env.check_same(n, want, 'announced length for any widths')
        n2 = e.polys_generator(b, [r[0:1]], 30)[1]
        want2 = (hi[4] - lo[4]) * (hi[0] - lo[0]) * (6 if cls == 'Sparse' else 1)
        env.check_same(n2, want2, 'announced length with a precision given')
    elif kind == 'ulcd':
        le = env.mod('lhs_evaluators')
        x = env.real('x')
        env.assume(x != 0)
        base = [1, 1, 1, 2]
        if form == 'int':
            base[which] = env.conc(env.int('n', 0, W + 1))
        else:
            lo = env.conc(env.int('lo', -2, 2))
            hi = env.conc(env.int('hi', -2, 3))
            env.assume(lo <= hi)
            base[which] = [lo, hi] if form == 'list' else [lo, hi, env.conc(env.int('st', 1, 3))]
        e = le.ULCDEnumerator(base, x)
        k = len(list(e.generator()))
        env.check(len(e) >= k, 'announced length of the ULCD enumeration')
        env.obs('k', k)
    elif kind == 'rat':
        le = env.mod('lhs_evaluators')
        x = env.real('x')
        base = [[[1, 2], [0, 2]], [[1, 3], [0, 1]]]
        lo = env.conc(env.int('lo', -2, 2))
        hi = lo + env.conc(env.int('w', 0, 3))
        base[which // 2][which % 2] = [lo, hi]
        for force in (False, True):
            e = le.RationalFuncEnumerator([base[0], base[1], force], x)
            k = len(list(e.generator()))
            env.check(len(e) >= k, 'announced length of the rational enumeration')
