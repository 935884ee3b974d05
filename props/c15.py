"""C15: duplicate filtering."""
ID = 'C15'
ASSUMPTIONS = ['equivalence is symmetric and reflexive (for real left-hand sides this is the subject of C14)']
BOUNDS = {'quick': 'lists of up to 5 results with an arbitrary symbolic symmetric equivalence relation (not necessarily transitive); lists '
                   'of 3 real ULCD or rational results with symbolic parameters',
          'thorough': 'as quick with up to 6 results'}


def cases(tier):
    out = [dict(kind='rel', n=n) for n in range(0, 6 if tier == 'quick' else 7)]
    out += [dict(kind='large', n=12), dict(kind='ulcd'), dict(kind='rat'), dict(kind='mixed'), dict(kind='twice')]
    return out


def mitm(env, results):
    en = env.mod('enum_params')
    m = en.MITM(target_generator=lambda: env.mpf('3.25'))
    m.filtered_params = list(results)
    return m


def same_objects(env, got, want, label):
    got = list(got)
    env.check(len(got) == len(want), label + ' (number)')
    for g, w in zip(got, want):
        env.check(tuple(g)[1] is w[1] and len(g) == len(w), label + ' (order)')
        env.check_same(g[0], w[0], label + ' (polynomials)')
        env.check_same(g[2:], w[2:], label + ' (function and convergence)')


def naive(results, eq):
    keep = []
    for r in results:
        if not any(eq(k, r) for k in keep):
            keep.append(r)
    return keep


def run(env, kind, n=0):
    le = env.mod('lhs_evaluators')
    mitm(env, [])                # fixes the working precision
    x = env.mpf('3.25')
    ab = (((1, 2),), ((3, 0, 1),))
    if kind in ('rel', 'large', 'twice'):
        rel = {}

        class Fake(le.ULCDEvaluator):
            @staticmethod
            def is_equiv(p, q):
                i, j = sorted((p[1].tag, q[1].tag))
                if i == j:
                    return True
                if kind != 'rel':
                    return (i + j) % 3 == 0 if n else i % 2 == j % 2
                if (i, j) not in rel:
                    rel[i, j] = env.flag('e%d_%d' % (i, j))
                return rel[i, j]
        if kind == 'twice':
            n = 6
            order = [env.conc(env.int('t%d' % i, 0, 2)) for i in range(4)]
        rs = []
        for i in range(n):
            o = Fake((1, 1, 0, 1), x)
            o.tag = i if kind != 'twice' else (order + [5, 5])[i]
            rs.append((ab, o, 2, ('exp', (i, 1))))
        want = naive(rs, lambda p, q: Fake.is_equiv(p, q))
        m = mitm(env, rs)
        m.filter_uniq_params()
        same_objects(env, m.get_filtered_params(), want, 'one representative of each class')
        if n:
            env.check(m.get_filtered_params()[0][1] is rs[0][1], 'the first result survives')
        m.filter_uniq_params()
        same_objects(env, m.get_filtered_params(), want, 'filtering again changes nothing')
        env.obs('kept', [r[3][1][0] for r in want])
    else:
        if kind == 'ulcd':
            c = [env.int('c%d' % i, -3, 3) for i in range(3)]
            d = env.int('d', 1, 3)
            ps = [(2, 4, c[0], 3), (-2, -4, c[1], d), (4, 2, c[2], 6)]
            rs = [(ab, le.ULCDEvaluator(p, x), 0, ('exp', (1, 1))) for p in ps]
        elif kind == 'rat':
            c = [env.int('c%d' % i, -2, 2) for i in range(3)]
            ps = [([c[0], 1], [1], 0), ([c[1], 2], [2], 1), ([1], [c[2], 1], 0)]
            rs = [(ab, le.RationalFuncEvaluator(p, x), i, ('exp', (1, 1))) for p, i in zip(ps, (2, 2, 3))]
        else:
            a = env.int('a')
            b = (((a, 2),), ((3, 0, 1),))
            rs = [(ab, le.ULCDEvaluator((0, 1, 0, 1), x), 0, None), (ab, le.RationalFuncEvaluator(([0, 1], [1], 0), x), 0, None),
                  (b, le.RationalFuncEvaluator(([0, 1], [1], 3), x), 0, None), (b, le.ULCDEvaluator((0, 1, 0, -1), x), 0, None)]

        def eq(p, q):
            p = (p[0], type(p[1])(p[1])) + p[2:]
            q = (q[0], type(q[1])(q[1])) + q[2:]
            return bool(p[1].is_equiv(p, q))
        vals = [r[1].get_val() for r in rs]
        want = naive(rs, eq)
        m = mitm(env, rs)
        m.filter_uniq_params()
        same_objects(env, m.get_filtered_params(), want, 'one representative of each class')
        for r, v in zip(rs, vals):
            if r[1].get_val() == r[1].get_val():
                env.check_same(r[1].get_val(), v, 'values unchanged')
        m.filter_uniq_params()
        same_objects(env, m.get_filtered_params(), want, 'filtering again changes nothing')
