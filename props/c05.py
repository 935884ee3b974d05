"""C05: fast-convergence verdict."""
from props.common import term, nested
ID = 'C05'
ASSUMPTIONS = ['all b terms of the run are nonzero where zero-numerator avoidance is on']
BOUNDS = {'quick': 'cutoff 0..3, step 6..9, up to 3 checked positions; one or two symbolic quantities (an integer coefficient of '
                   'a or b, or the start state) with everything else concrete; defaults (600/200/50) with a symbolic start row',
          'thorough': 'as quick with bounds of the symbolic coefficients widened'}

# (a, b) with None standing for the symbolic coefficient
SHAPES = [([[None]], [[1]]), ([[None, 1]], [[3]]), ([[1]], [[None]]), ([[2, 1]], [[None, 0, 1]]), ([[3], [None]], [[1], [-1]]),
          ([[1, 1]], [[1, None]])]


def cases(tier):
    th = tier != 'quick'
    B = 60 if th else 12
    out = []
    for s in range(len(SHAPES)):
        for cutoff, step, iters in ((0, 6, 6), (0, 6, 12), (1, 6, 13), (2, 7, 20), (3, 6, 8), (1, 9, 10)):
            if not th and s in (3, 5) and iters > 8:
                continue
            out.append(dict(kind='coeff', s=s, cutoff=cutoff, step=step, iters=iters, B=B, _opts=dict(timeout_ms=8000)))
    for cutoff, step, iters in ((0, 6, 6), (1, 6, 13)):
        for s in range(3):
            for K in (1, 1000003):
                out.append(dict(kind='state', s=s, cutoff=cutoff, step=step, iters=iters, K=K, _opts=dict(timeout_ms=8000)))
            out.append(dict(kind='free', s=s, cutoff=cutoff, step=step, iters=iters, _opts=dict(timeout_ms=8000)))
    for s, cut in ((3, 51), (4, 128), (5, 24)):
        for st in (6, 7):
            out.append(dict(kind='state', s=s, cutoff=cut, step=st, iters=cut + st, K=1000003, _opts=dict(timeout_ms=8000)))
    out.append(dict(kind='defaults'))
    return out


def verdict(env, P, Q, cutoff, step, iters):
    """the documented test: both ratios of consecutive same-parity differences exceed one by more than a sixteenth"""
    i = cutoff
    while i + step <= iters:
        for o in (0, 1):
            p, q = P[i + o:], Q[i + o:]
            big = abs(q[4] * (p[2] * q[0] - p[0] * q[2]))
            small = abs(q[0] * (p[4] * q[2] - p[2] * q[4]))
            if not (16 * (big - small) > small):
                return False
        i += step
    return True


def run(env, kind, s=0, cutoff=200, step=50, iters=600, B=0, K=1):
    cf = env.mod('cont_fracs')
    m = None
    if kind == 'coeff':
        x = env.int('x', -B, B)
        a, b = [[[x if c is None else c for c in p] for p in ps] for ps in SHAPES[s]]
    else:
        a, b = [([[1]], [[2]]), ([[1, 1], [2]], [[1, 3]]), ([[-3, 1]], [[1, 1], [2]]),
                ([[1]], [[0, 0, 2]]), ([[6]], [[1, -4, 4]]), ([[1, 1]], [[0, 0, 1]])][s]
        if kind == 'defaults':
            a, b = [[5, 3]], [[-2, 0, 1], [1]]
            p0 = env.int('p0')
            m = ((p0, 1), (3, 1))
        elif kind == 'state':
            q0 = env.int('q0')
            m = ((1, 0), (q0, K))
        else:
            m = ((1, 0), (env.int('q0', -30, 30), env.int('q1', -30, 30)))
    c = cf.ContFrac(a, b, avoid_zero_b=False, first_iter_matrix=m)
    if m is None:
        m = ((a[0][0], 1), (1, 0))
    P, Q = [m[0][0]], [m[1][0]]
    pp, qq = m[0][1], m[1][1]
    for i in range(1, iters + 6):
        P.append(term(a, i) * P[-1] + term(b, i) * pp)
        Q.append(term(a, i) * Q[-1] + term(b, i) * qq)
        pp, qq = P[-2], Q[-2]
    if kind == 'defaults':
        r = c.is_convergence_fast()
    else:
        r = c.is_convergence_fast(iters=iters, initial_cutoff=cutoff, iters_step=step)
    want = verdict(env, P, Q, cutoff, step, iters)
    env.check_same(bool(r), want, 'verdict')
    env.check_same(c.get_num_of_executed_iters(), 0, 'zero iterations afterwards')
    env.check_same(c.get_p_q(), (m[0][0], m[1][0]), 'initial state afterwards')
    env.obs('r', bool(r))
