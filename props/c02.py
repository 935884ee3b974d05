"""C02: incremental, restarted and reused continued fractions equal fresh ones."""
from props.common import nested, term
ID = 'C02'
ASSUMPTIONS = []
BOUNDS = {'quick': 'all histories of 3 operations (restart n, add k, re-initialise with both / one polynomial), n, k in 0..2; '
                   'four pairs of polynomials with unbounded symbolic coefficients; logging on and off; '
                   'start-matrix histories of 2 operations; one linear case with 40+ iterations',
          'thorough': 'as quick with 4 operations and n, k in 0..3'}


def cases(tier):
    L, M = (3, 2) if tier == 'quick' else (4, 3)
    out = []
    OPS = ('gen', 'add', 'reA', 'reB', 're')
    for o1 in OPS:
        for o2 in OPS:
            if (o1, o2).count('gen') + (o1, o2).count('add') == 0:
                continue
            out.append(dict(kind='hist', first=[o1, o2], L=L, M=M, logging=0, _opts=dict(weight=3)))
    for o1 in OPS:
        out.append(dict(kind='hist', first=[o1], L=2, M=2, logging=1))
    out += [dict(kind='undef', logging=g) for g in (0, 1)]
    out += [dict(kind='matrix'), dict(kind='settings'), dict(kind='zero'), dict(kind='linear', M=7), dict(kind='accuracy')]
    return out


def run(env, kind, first=(), L=0, M=0, logging=0):
    cf = env.mod('cont_fracs')
    x, y, z, w = [env.int(s) for s in 'xyzw']
    # four polynomial sets, some interlaced
    As = [[[x, 1]], [[z], [1, 1]], ((2, x, 1),), ([y], [3])]
    Bs = [[[y]], [[2, w]], ((1,), (z, 1)), ([w, 0, 1],)]
    if kind == 'hist':
        c = cf.ContFrac(As[0], Bs[0], avoid_zero_b=False, logging=bool(logging))
        a, b, n = As[0], Bs[0], 0
        fin = True
        for step in range(L):
            if step < len(first):
                op = first[step]
            else:
                op = env.choice('op%d' % step, ['gen', 'add', 're', 'reA', 'reB'])
            if op in ('gen', 'add'):
                k = env.conc(env.int('n%d' % step, 0, M))
                # the value is compared for small totals (the sign of larger denominators is hard for the solver)
                last = step == L - 1 and (k if op == 'gen' else n + k) <= 3
                if op == 'gen':
                    c.gen_iterations(k, exec_finalize=last)
                    n = k
                else:
                    c.add_iterations(k, exec_finalize=last)
                    n += k
                fin = last
            else:
                if op in ('re', 'reA'):
                    a = As[(step + 1) % 4]
                if op in ('re', 'reB'):
                    b = Bs[(step + 2) % 4]
                if op == 're':
                    c.reinitialize(a, b)
                elif op == 'reA':
                    c.reinitialize(a_coeffs=a)
                else:
                    c.reinitialize(b_coeffs=b)
                n, fin = 0, False
            state(env, c, a, b, n, 'after operation')
        fresh = cf.ContFrac(a, b, avoid_zero_b=False, logging=bool(logging))
        small = n <= 3
        fresh.gen_iterations(n, exec_finalize=small)
        if not fin and small:
            c.add_iterations(0)
        state(env, c, a, b, n, 'at the end')
        env.check_same(c.get_p_q(), fresh.get_p_q(), 'same as a fresh fraction')
        env.check_same(c.get_num_of_executed_iters(), fresh.get_num_of_executed_iters(), 'count of a fresh fraction')
        if small:
            env.check_same(c.get_result(), fresh.get_result(), 'value of a fresh fraction')
        if logging:
            env.check_same([list(m[0]) + list(m[1]) for m in c.iter_matrices],
                           [list(m[0]) + list(m[1]) for m in fresh.iter_matrices], 'log of a fresh fraction')
        env.obs('n', [n, c.get_p_q()[0]])
    elif kind == 'undef':
        # values at every step, also where one of them is not defined
        b1, n = env.int('b'), 3
        a, b = [[x, z]], [[b1]]
        c = cf.ContFrac(a, b, avoid_zero_b=False, logging=bool(logging))
        if env.flag('scratch'):
            c.gen_iterations(0)
        for i in range(1, n + 1):
            c.add_iterations(1)
            P, Q = nested(lambda i: term(a, i), lambda i: term(b, i), i)
            if Q == 0:
                env.check(env.is_nan(c.get_result()), 'no value without a denominator')
            else:
                env.check_same(c.get_result(), env.mpf(0) + P / env.mpf(Q), 'value at every step')
            fresh = cf.ContFrac(a, b, avoid_zero_b=False, logging=bool(logging))
            fresh.gen_iterations(i)
            env.check_same(c.get_result(), fresh.get_result(), 'value of a fresh fraction at every step')
    elif kind == 'zero':
        c = cf.ContFrac(As[1], Bs[1], avoid_zero_b=False)
        c.gen_iterations(3, exec_finalize=False)
        c.gen_iterations(0)
        state(env, c, As[1], Bs[1], 0, 'after generating zero iterations')
        env.check_same(c.get_result(), env.mpf(0) + z, 'initial value')
    elif kind == 'matrix':
        p0, p1, q0, q1 = [env.int(s) for s in ('p0', 'p1', 'q0', 'q1')]
        m = ((p0, p1), (q0, q1))
        given = env.flag('given')
        c = cf.ContFrac(As[0], Bs[0], avoid_zero_b=False, first_iter_matrix=m if given else None)
        if not given:
            c.gen_iterations(2, exec_finalize=False)
            c.reinitialize(first_iter_matrix=m)
        env.check_same(c.get_p_q(), (p0, q0), 'explicit start matrix')
        c.gen_iterations(2, exec_finalize=False)
        matrix(env, c, As[0], Bs[0], m, 2, 'from an explicit start matrix')
        c.reinitialize(b_coeffs=Bs[1]) if env.flag('which') else c.reinitialize(a_coeffs=As[2])
        which = env.flag('which')
        a, b = (As[0], Bs[1]) if which else (As[2], Bs[0])
        c.add_iterations(1, exec_finalize=False)
        c.add_iterations(1, exec_finalize=False)
        if given:
            matrix(env, c, a, b, m, 2, 'explicit start matrix kept')
        else:
            # the automatic start is used again
            matrix(env, c, a, b, ((a[0][0], 1), (1, 0)), 2, 'automatic start')
    elif kind == 'settings':
        t = env.real('t')
        c = cf.ContFrac([[x]], [[1]], target_val=t, avoid_zero_b=True)
        which = env.flag('which')
        if which:
            c.reinitialize(b_coeffs=[[y]])
            a, b = x, y
        else:
            c.reinitialize(a_coeffs=[[y]])
            a, b = y, 1
        e = env.raises(c.gen_iterations, 1)
        if b == 0:
            env.check(isinstance(e, cf.ZeroB), 'zero-numerator avoidance kept')
        else:
            env.check(e is None, 'no error')
            if a != 0:
                env.check_same(c.compare_result(calc_abs=False) * a, (a * a + b) - t * a, 'target kept')
    elif kind == 'linear':
        p0, p1, q0, q1 = [env.int(s) for s in ('p0', 'p1', 'q0', 'q1')]
        a, b = ((1, 2), (3, 0, 1), (2,)), ((1, 1), (-2, 3))
        m = ((p0, p1), (q0, q1))
        c = cf.ContFrac(a, b, avoid_zero_b=False, first_iter_matrix=m)
        n = 0
        for k in (3, 0, 17, 1, 11, 2, 9):
            c.add_iterations(k, exec_finalize=False)
            n += k
            matrix(env, c, a, b, m, n, 'portions')
        k = env.conc(env.int('k', 0, M))
        c.gen_iterations(k, exec_finalize=False)
        matrix(env, c, a, b, m, k, 'restart')
        env.check_same(c.get_num_of_executed_iters(), k, 'iteration count')
    elif kind == 'accuracy':
        # an estimate of the approach belongs to the polynomials it was made for
        c = cf.ContFrac(As[0], Bs[0], avoid_zero_b=False)
        c.set_approach_type_and_params(('exp', (env.mpf(10), env.mpf(1))))
        c.reinitialize(As[1], Bs[1])
        env.check(c.get_approach_type_and_params()[0] != 'exp', 'estimate forgotten')
        c.gen_iterations(6, accuracy=env.mpf('0.001'), exec_finalize=False)
        state(env, c, As[1], Bs[1], 6, 'after re-initialising an estimated fraction')


def state(env, c, a, b, n, when):
    N, D = nested(lambda i: term(a, i), lambda i: term(b, i), n)
    env.check_same(c.get_p_q(), (N, D), 'numerator and denominator ' + when)
    env.check_same(c.get_num_of_executed_iters(), n, 'iteration count ' + when)


def matrix(env, c, a, b, m, n, when):
    P, Q = [m[0][1], m[0][0]], [m[1][1], m[1][0]]
    for i in range(1, n + 1):
        P.append(term(a, i) * P[-1] + term(b, i) * P[-2])
        Q.append(term(a, i) * Q[-1] + term(b, i) * Q[-2])
    env.check_same(c.get_p_q(), (P[-1], Q[-1]), when)
