"""C01: convergents are exact."""
from props.common import polys, term, nested
ID = 'C01'
ASSUMPTIONS = ['the target passed to compare_result is a finite number']
BOUNDS = {'quick': 'all integer coefficients (no bound on size). Convergents: polynomials with up to 4 coefficients (13 at depth <= 3), '
                   'interlaces of up to 3, depth <= 5; depth 60 with symbolic start state and one symbolic polynomial '
                   'of an interlace; values/NaN, comparison, logging: up to 2 coefficients, depth <= 3',
          'thorough': 'as quick with depth <= 8 (convergents), <= 4 (values), 150 (linear cases)'}


def cases(tier):
    out = []
    th = tier != 'quick'
    D = 9 if th else 6
    for na, nb in ((1, 1), (2, 1), (1, 2), (2, 3), (3, 2), (4, 4)):
        for d in (1, 2, 3, 4):
            if d > 2 and na + nb > 4 and not th:
                continue
            # only degrees low enough to keep the polynomials small
            for n in ((0, 1, D - 1) if d < 3 else (0, 2, 3)):
                out.append(dict(kind='pq', na=na, nb=nb, d=d, n=n))
    out.append(dict(kind='custom', n=13 if th else 10))
    for d in (6, 9, 13):
        for na, nb, n in ((1, 1, 1), (1, 1, 2), (2, 1, 2), (3, 3, 3)):
            out.append(dict(kind='pq', na=na, nb=nb, d=d, n=n))
    for n in (30, 60) if not th else (60, 150):
        for na, nb in ((1, 1), (3, 4)):
            out.append(dict(kind='start', na=na, nb=nb, n=n))
    for na in (11, 12) if not th else (11, 12, 17):
        out.append(dict(kind='long', na=na, n=3 * na))
    for na, nb, d, n in ((1, 1, 1, 0), (1, 1, 1, 1), (1, 1, 1, 2), (1, 1, 2, 1), (1, 1, 2, 2), (2, 1, 1, 2), (2, 2, 1, 2),
                         (1, 2, 1, 2), (1, 1, 1, 3)):
        for kind in ('value', 'log'):
            out.append(dict(kind=kind, na=na, nb=nb, d=d, n=n, _opts=dict(deadline=200)))
    for n in (1, 3, 4):
        out.append(dict(kind='value1', n=n))
    for bare in (0, 1):
        out.append(dict(kind='compare', bare=bare))
    out.append(dict(kind='valid'))
    return out


def run(env, kind, na=1, nb=1, d=1, n=0, bare=0):
    cf = env.mod('cont_fracs')
    if kind in ('pq', 'value', 'log'):
        a, b = polys(env, 'a', na, d), polys(env, 'b', nb, d)
    if kind == 'pq':
        c = cf.ContFrac(a, b, avoid_zero_b=False)
        c.gen_iterations(n, exec_finalize=False)
        p, q = c.get_p_q()
        N, D = nested(lambda i: term(a, i), lambda i: term(b, i), n)
        env.obs('pq', [p, q])
        env.check_same(p, N, 'numerator')
        env.check_same(q, D, 'denominator')
        env.check_same(c.get_num_of_executed_iters(), n, 'iteration count')
    elif kind == 'custom':
        # arbitrary terms, a different one in every step
        A = [env.int('a%d' % i) for i in range(n + 1)]
        B = [env.int('b%d' % i) for i in range(n + 1)]
        seen = []

        def gen(i, a_coeffs, b_coeffs, print_calc):
            seen.append(i)
            return A[i], B[i]
        c = cf.ContFrac([[A[0]]], [[1]], iter_promo_matrix_generator=gen)
        c.gen_iterations(n, exec_finalize=False)
        N, D = nested(lambda i: A[i], lambda i: B[i], n)
        p, q = c.get_p_q()
        env.check_same(p, N, 'numerator of arbitrary terms')
        env.check_same(q, D, 'denominator of arbitrary terms')
        env.check_same(seen, list(range(1, n + 1)), 'every step once, in order')
    elif kind == 'start':
        # concrete polynomials, symbolic start state: linear in the state
        a = [[2 + j, 1, j] for j in range(na)]
        b = [[3 - j, 0, 1 + j] for j in range(nb)]
        p0, p1, q0, q1 = [env.int(s) for s in ('p0', 'p1', 'q0', 'q1')]
        c = cf.ContFrac(a, b, avoid_zero_b=False, first_iter_matrix=((p0, p1), (q0, q1)))
        c.gen_iterations(n, exec_finalize=False)
        P, Q = [p1, p0], [q1, q0]
        for i in range(1, n + 1):
            P.append(term(a, i) * P[-1] + term(b, i) * P[-2])
            Q.append(term(a, i) * Q[-1] + term(b, i) * Q[-2])
        p, q = c.get_p_q()
        env.check_same(p, P[-1], 'numerator from a given start')
        env.check_same(q, Q[-1], 'denominator from a given start')
    elif kind == 'long':
        # a long interlace in which only one polynomial is symbolic
        x = [env.int('x%d' % j) for j in range(3)]
        a = [[j + 1, 2] for j in range(na)]
        b = [[1, j + 1] for j in range(na)]
        a[na - 1] = x
        c = cf.ContFrac(a, b, avoid_zero_b=False)
        c.gen_iterations(n, exec_finalize=False)
        N, D = nested(lambda i: term(a, i), lambda i: term(b, i), n)
        p, q = c.get_p_q()
        env.check_same(p, N, 'numerator of a long interlace')
        env.check_same(q, D, 'denominator of a long interlace')
    elif kind in ('value', 'log', 'value1'):
        if kind == 'value1':
            x, y = env.int('x'), env.int('y')
            a, b = [[x, 1]], [[1, y]]
        c = cf.ContFrac(a, b, avoid_zero_b=False, logging=kind == 'log')
        c.gen_iterations(n)
        N, D = nested(lambda i: term(a, i), lambda i: term(b, i), n)
        check_value(env, c.get_result(), N, D, 'value')
        p, q = c.get_p_q()
        env.check_same(p, N, 'numerator after finalizing')
        env.check_same(q, D, 'denominator after finalizing')
        if kind == 'log':
            env.check_same(len(c.iter_matrices), n + 1, 'one logged state per convergent')
            log = getattr(c, '_params_log', {}).get('contfrac_res')
            for k in range(n + 1):
                N, D = nested(lambda i: term(a, i), lambda i: term(b, i), k)
                env.check_same(c.iter_matrices[k][0][0], N, 'logged numerator')
                env.check_same(c.iter_matrices[k][1][0], D, 'logged denominator')
                if log is not None and 0 < k:
                    check_value(env, log[k], N, D, 'logged value')
            if log is not None:
                env.check_same(len(log), n + 1, 'one logged value per convergent')
        else:
            env.obs('value', c.get_result())
    elif kind == 'compare':
        x, y, t = env.int('x'), env.int('y'), env.real('t')
        a, b = ([x, 1], [y]) if bare else ([[x, 1]], [[y]])
        c = cf.ContFrac(a, b, avoid_zero_b=False, target_val=t)
        c.gen_iterations(1)
        env.assume(x + 1 != 0)
        v = c.get_result()
        check_value(env, v, x * (x + 1) + y, x + 1, 'value')
        env.check_same(c.compare_result(calc_abs=False), v - t, 'difference to the target')
        env.check_same(c.compare_result(), abs(v - t), 'absolute difference to the target')
        u = env.real('u')
        env.check_same(c.compare_result(u, calc_abs=False), v - u, 'difference to a given target')
        env.check_same(c.compare_result(target_val=u), abs(v - u), 'absolute difference to a given target')
    elif kind == 'valid':
        x, y, z = env.int('x'), env.int('y'), env.int('z')
        c = cf.ContFrac([[x, z]], [[y]], avoid_zero_b=False)
        c.gen_iterations(1)
        N, D = x * (x + z) + y, x + z
        env.check(env.Iff(bool(c.is_result_valid()), env.And(D != 0, N != 0)), 'validity of the result')


def check_value(env, v, N, D, label):
    if D == 0:
        env.check(env.is_nan(v), label + ' is NaN for a zero denominator')
    else:
        env.check(not env.is_nan(v) and not env.is_inf(v), label + ' is a number')
        env.check_same(v * D, env.mpf(0) + N, label)
