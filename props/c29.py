"""C29: the CSV export lists every result with its own values."""
from props.common import peval
ID = 'C29'
ASSUMPTIONS = ['the exported continued fractions have no vanishing denominators and no vanishing numerators (the search filters the rest)',
               'the values of the continued fractions with symbolic coefficients are cut after 3 iterations']
BOUNDS = {'quick': 'up to 4 results, polynomials of up to 3 coefficients in interlaces of up to 2 with symbolic coefficients, symbolic ULCD '
                   'and rational left-hand-side parameters, symbolic convergence rates, 6 functions; full-length runs with concrete '
                   'continued fractions; target names with commas and quotes',
          'thorough': 'as quick with up to 8 results and 8 symbolic rational left-hand sides'}
FN = [('x', lambda v: v), ('inv', lambda v: 1 / v), ('sq', lambda v: v * v), ('x+3', lambda v: v + 3), ('7x', lambda v: 7 * v),
      ('-x', lambda v: -v)]


def tup(p):
    return tuple(tup(x) for x in p) if isinstance(p, (list, tuple)) else p


def cases(tier):
    th = tier != 'quick'
    out = [dict(kind='many', n=n) for n in (0, 1, 2, 3, 4) + ((6, 8) if th else ())]
    out += [dict(kind='func', f=f) for f in range(len(FN))]
    out += [dict(kind='ulcd', n=1), dict(kind='mixed', n=3), dict(kind='same', n=2), dict(kind='swap', n=2)]
    out += [dict(kind='rat', n=n, s=s) for n in (1, 2, 3) for s in range(3 if th else 2)]
    out += [dict(kind='poly', s=s) for s in range(4)]
    out += [dict(kind='names', n=k) for k in range(5)]
    out += [dict(kind='conv', n=k) for k in range(5)]
    out += [dict(kind='again', n=2), dict(kind='unchanged', n=2)]
    out += [dict(kind='full', n=k) for k in range(3)]
    out += [dict(kind='real', f=f) for f in range(10)]
    return out


NAMES = ['pi', 'feig, 0', 'a "quoted" one', 'zeta', 'percolation, 1']
TITLES = ('a poly', 'b poly', 'postproc', 'lhs type', 'lhs params', 'convergence type', 'convergence rate', 'cont_frac', 'lhs val')


def structure(env, s, label):
    """nested lists of integers a cell shows"""
    out, stack, i = None, [], 0
    while i < len(s):
        c = s[i]
        if c in '[(':
            stack.append([])
            i += 1
        elif c in '])':
            if not stack:
                env.fail(label + ': brackets')
            v = stack.pop()
            if stack:
                stack[-1].append(v)
            else:
                out = v
            i += 1
        elif c in ', ':
            i += 1
        else:
            j = i
            while j < len(s) and s[j] not in '[](), ':
                j += 1
            t = s[i:j]
            neg = t[:1] == '-'
            v = env.number(t[1:] if neg else t)
            if v is None or not stack:
                env.fail(label + ': not a list of integers: %r' % s)
            stack[-1].append(-v if neg else v)
            i = j
    if stack:
        env.fail(label + ': brackets')
    return out


def plain(p):
    return [plain(x) if isinstance(x, (list, tuple)) else x for x in p]


def value(a, b, n):
    """n+1 terms of the continued fraction"""
    def A(i):
        return peval(a[i % len(a)], i)

    def B(i):
        return peval(b[i % len(b)], i)
    num, den = A(n), 1
    for i in range(n, 0, -1):
        num, den = A(i - 1) * num + B(i) * den, num
    return num, den


def run(env, kind, n=0, s=0, f=0):
    mp = env.lib('mpmath')
    cfm, ep, le = env.mod('cont_fracs'), env.mod('enum_params'), env.mod('lhs_evaluators')
    funcs = FN
    if kind == 'real':
        pp = env.mod('postprocfuncs')
        funcs = [(pp.POSTPROC_FUNCS[i], g) for i, g in enumerate(pp.EVALUATED_POSTPROC_FUNCS)]
    full = kind == 'full'
    if not full:
        orig = cfm.ContFrac.gen_iterations
        cfm.ContFrac.gen_iterations = lambda self, num, *a, **kw: orig(self, min(num, 3), *a, **kw)
    x = env.real('x', 0.125, 8)
    name = NAMES[n] if kind == 'names' else 'pi'
    # the depth the table was built with has nothing to do with the exported values
    m = ep.MITM(target_generator=lambda: x, target_name=name, postproc_funcs=[g for _, g in funcs], num_of_iterations=4 if full else 300)
    mp.mp.dps = 60

    def ulcd(u, l, c, d):
        env.assume(l != 0)
        env.assume(d != 0)
        return le.ULCDEvaluator((u, l, c, d), x), [u, l, c, d], (u / x + x / l + c) / d

    def rat(p, q, add):
        K = max(len(p), len(q))
        P, Q = list(p) + [0] * (K - len(p)), list(q) + [0] * (K - len(q))
        env.assume(env.Or(*[P[i] * Q[j] != P[j] * Q[i] for i in range(K) for j in range(i)]))
        N, D = peval(p, x), peval(q, x)
        env.assume(N != 0)
        env.assume(D != 0)
        return le.RationalFuncEvaluator((tuple(p), tuple(q), add), x), [plain(p), plain(q), add], N / D + add
    one = ulcd(0, 1, 0, 1)
    rows = []           # (a, b, lhs triple, function, convergence)
    if kind == 'many':
        for i in range(n):
            c = env.int('c%d' % i, 1)
            rows.append(([[c]] if i % 2 else [[1, c]], [[2 + i]], ulcd(i, 1, 3 + i, 2), i % 3, ('exp', env.real('r%d' % i, 1, 9))))
    elif kind in ('func', 'real'):
        rows = [([[env.int('c', 1)]], [[1]], one, f, ('exp', 2)), ([[2]], [[3]], one, (f + 1) % len(FN), ('exp', 2))]
    elif kind == 'ulcd':
        rows = [([[1]], [[1]], ulcd(*[env.int(k) for k in 'ulcd']), 0, ('exp', 2))]
    elif kind == 'rat':
        p, q, k = [3, -5, 2][:n], [4, 1], 0
        p[-1] = env.int('p', 1, 9)
        if s:
            q[0] = env.int('q', 1, 9)
            k = env.int('k')
        if s == 2:
            p[0], q[1] = env.int('p0', 1), env.int('q1', 1)
        rows = [([[1]], [[1]], rat(p, q, k), 0, ('exp', 2))]
    elif kind in ('mixed', 'unchanged'):
        u = env.int('u')
        rows = [([[1]], [[env.int('b', 1)]], ulcd(u, 2, 1, 3), 1, ('exp', 2)), ([[2]], [[1]], rat([1, 0, 1], [2, 3], u), 0, ('super_exp', 1)),
                ([[env.int('a', 1)]], [[1]], ulcd(1, 1, 1, 1), 2, ('exp', 5))]
    elif kind in ('same', 'swap', 'again'):
        c, d = env.int('c', 1), env.int('d', 1)
        if kind == 'same':
            rows = [([[c]], [[1]], one, 0, ('exp', 2))] * n
        else:
            rows = [([[c]], [[d]], ulcd(0, 1, c, 1), 0, ('exp', 2)), ([[d]], [[c]], ulcd(0, 1, d, 1), 3, ('exp', 3))]
    elif kind == 'poly':
        c = env.int('c', 1)
        a, b = [([[c, 0, 2]], [[1, 3]]), ([[1], [c, 1]], [[5]]), ([[c]], [[1], [0, 2]]), ([[1, 2], [c]], [[2], [c]])][s]
        rows = [(a, b, one, 0, ('exp', 2))]
    elif kind == 'names':
        rows = [([[env.int('c', 1)]], [[1]], one, 0, ('exp', 2))]
    elif kind == 'conv':
        conv = [('exp', env.real('r', 1, 9)), ('super_exp', env.real('r', 1, 9)), (None, None), ('undefined', 0), ('exp', env.int('r'))][n]
        rows = [([[1]], [[1]], one, 0, conv)]
    else:
        a, b = [([[1]], [[1]]), ([[1]], [[10]]), ([[3, 2]], [[0, 0, 1]])][n]
        rows = [(a, b, one, 0, ('exp', 2))]
    m.filtered_params = [((tup(a), tup(b)), L[0], fi, conv) for a, b, L, fi, conv in rows]
    before = list(m.filtered_params)
    out = env.path(env.scratch(), 'out.csv')
    m.export_to_csv(out)
    if kind == 'again':                     # the file is written anew, not appended to
        m.filtered_params = m.filtered_params[1:]
        rows, before = rows[1:], before[1:]
        m.export_to_csv(out)
    env.check(len(m.filtered_params) == len(before) and all(p is q for p, q in zip(m.filtered_params, before)), 'the results are left as they are')
    with open(out, newline='', encoding='utf-8') as fh:
        import csv
        got = list(csv.reader(fh))
    env.check(len(got) == len(rows) + 2, 'two header rows and one row per result')
    env.check(got[0] == ['target_name', name], 'target name')
    env.check(len(got[1]) == 9 and all(t in g.lower() for t, g in zip(TITLES, got[1])), 'column titles')
    for k, (g, (a, b, L, fi, conv)) in enumerate(zip(got[2:], rows)):
        env.check(len(g) == 9, 'nine columns')
        env.check_same(structure(env, g[0], 'a'), plain(a), 'a polynomials')
        env.check_same(structure(env, g[1], 'b'), plain(b), 'b polynomials')
        env.check_same(g[3], str(L[0]), 'left-hand side type')
        env.check_same(structure(env, g[4], 'parameters'), L[1], 'left-hand side parameters')
        env.check(g[5] == ('' if conv[0] is None else conv[0]), 'convergence type')
        if conv[1] is None:
            env.check(g[6] == '', 'convergence rate')
        else:
            r = env.decimal(g[6])
            env.check(r is not None, 'convergence rate is a number')
            env.check(env.close(r, conv[1], 15), 'convergence rate')
        v = env.decimal(g[7])
        if full:
            env.check(v is not None, 'value is a number')
            env.check(env.same(v > 0, True), 'value is positive')
            if n == 0:
                env.check(env.close(v * v, v + 1, 40), 'value')
            elif n == 1:
                env.check(env.close(v * v, v + 10, 40), 'value')
            else:
                with_ref = value(a, b, 120)
                env.check(env.close(v, env.mpf(with_ref[0]) / with_ref[1], 40), 'value')
        else:
            N, D = value(a, b, 3)
            want = funcs[fi][1](env.mpf(N) / D)
            env.check(v is not None, 'value is a number')
            env.check(env.close(v, want, 40), 'value of the continued fraction')
        w = env.decimal(g[8])
        env.check(w is not None, 'left-hand side value is a number')
        env.check(env.close(w, L[2], 40), 'left-hand side value')
