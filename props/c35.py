"""C35: runs limited by a requested accuracy."""
from props.common import term, nested
ID = 'C35'
ASSUMPTIONS = ['the rate is greater than 1 and the requested accuracy lies in (0, 1)',
               'the logarithm is an uninterpreted function of which only its monotonicity is used',
               'one iteration more than needed is allowed (rounding of the logarithm)']
BOUNDS = {'quick': 'rates 1.1, 1.5, 2, 3, 10 and 1000, every accuracy in [rate^-7, 1) and limits of 0..9 iterations; every approach type; '
                   'unbounded symbolic coefficients of a linear continued fraction; histories of 2 runs with different settings; '
                   'refinement of up to 2 results with given convergence data',
          'thorough': 'as quick with accuracies down to rate^-12 and limits up to 14'}
RATES = ('1.1', '1.5', '2', '3', '10', '1000')


def cases(tier):
    K, n = (7, 9) if tier == 'quick' else (12, 14)
    out = [dict(kind='rate', B=B, K=K, n=n) for B in RATES]
    out += [dict(kind='types', n=4), dict(kind='history', K=3), dict(kind='off', n=3), dict(kind='add', K=3)]
    for t in ('exp', 'super_exp'):
        out.append(dict(kind='refine', t=t))
    return out


def facts(env, delta, B, K):
    """what the logarithm's monotonicity says about the arguments that matter"""
    if not env.symbolic:
        return
    ln = env.fn('ln')
    L = ln(B)
    for x in (delta, delta / B, 1 / delta, B / delta):
        r = ln(x)
        for k in range(-K - 3, K + 4):
            p = B ** k if k >= 0 else 1 / B ** -k
            env.assume(env.Iff(r >= k * L, x >= p))
            env.assume(env.Iff(r > k * L, x > p))


def enough(env, m, n, delta, B, label):
    """m iterations of at most n, enough for the accuracy and at most one more than that"""
    m = env.conc(m)
    env.check(m <= n, label + ': not more than the limit')
    if m < n:
        p = B ** (m - 1) if m >= 1 else 1 / B ** (1 - m)
        env.check(p * delta >= 1 - env.mpf(1) / 10 ** 12, label + ': enough iterations')
    if m >= 3:
        env.check(B ** (m - 3) * delta < 1 + env.mpf(1) / 10 ** 12, label + ': not more than needed')


def value(env, c, a, b, n, label):
    N, D = nested(lambda i: term(a, i), lambda i: term(b, i), n)
    p, q = c.get_p_q()
    env.check_same(p, N, label + ': numerator')
    env.check_same(q, D, label + ': denominator')


def frac(env, cf):
    x, y = env.int('x'), env.int('y')
    a, b = [[x, 1]], [[y]]
    return a, b, cf.ContFrac(a, b, avoid_zero_b=False)


def acc(env, B, K, name='delta'):
    d = env.real(name, 0, 1)
    env.assume(env.And(d * B ** K >= 1, d < 1))
    return d


def run(env, kind, B='2', K=4, n=4, t='exp'):
    cf = env.mod('cont_fracs')
    B = env.mpf(B)
    if kind == 'rate':
        a, b, c = frac(env, cf)
        d = acc(env, B, K)
        n = env.choice('n', [0, 1, 2, K - 1, n])
        c.set_approach_type_and_params((env.choice('type', ['exp', 'super_exp']), (B, env.real('coeff'))))
        facts(env, d, B, K)
        c.gen_iterations(n, d, exec_finalize=False)
        m = c.get_num_of_executed_iters()
        enough(env, m, n, d, B, 'accuracy given')
        value(env, c, a, b, env.conc(m), 'accuracy given')
    elif kind == 'types':
        a, b, c = frac(env, cf)
        d = acc(env, B, K)
        info = env.choice('info', [('poly2sympoly', (B, B, B)), ('mixed', 0), ('mixed', (B, B)), ('poly2sympoly', (B, B)), ('undefined', (B, B)), ('fast', (B, B)), ('undefined', 0), ('fast', 0), (None, None), ('exp', None),
                                   ('super_exp', 0)])
        c.set_approach_type_and_params(info)
        facts(env, d, B, K)
        env.check_same(list(c.get_approach_type_and_params()), list(info), 'information given')
        c.gen_iterations(n, d, exec_finalize=False)
        env.check_same(c.get_num_of_executed_iters(), n, 'the whole limit without a known rate')
        value(env, c, a, b, n, 'no known rate')
    elif kind == 'off':
        a, b, c = frac(env, cf)
        c.set_approach_type_and_params((env.choice('type', ['exp', 'super_exp']), (B, env.mpf(1))))
        if env.flag('explicit'):
            c.gen_iterations(n, 0, exec_finalize=False)
        else:
            c.gen_iterations(n, exec_finalize=False)
        env.check_same(c.get_num_of_executed_iters(), n, 'the whole limit without an accuracy')
        value(env, c, a, b, n, 'no accuracy')
    elif kind == 'history':
        # information about another fraction is forgotten
        a, b, c = frac(env, cf)
        d = acc(env, B, K)
        c.set_approach_type_and_params(('exp', (B, env.mpf(1))))
        facts(env, d, B, K)
        c.gen_iterations(9, d, exec_finalize=False)
        enough(env, c.get_num_of_executed_iters(), 9, d, B, 'first')
        z = env.int('z')
        c.reinitialize([[z]], [[1, 1]])
        c.gen_iterations(7, d, exec_finalize=False)
        env.check_same(c.get_num_of_executed_iters(), 7, 'the whole limit for another fraction')
        value(env, c, [[z]], [[1, 1]], 7, 'another fraction')
    elif kind == 'add':
        # added iterations are not limited, and a new run does not depend on them
        a, b, c = frac(env, cf)
        d = acc(env, B, K)
        c.set_approach_type_and_params(('exp', (B, env.mpf(1))))
        facts(env, d, B, K)
        c.gen_iterations(9, d, exec_finalize=False)
        m = env.conc(c.get_num_of_executed_iters())
        c.add_iterations(3, exec_finalize=False)
        env.check_same(c.get_num_of_executed_iters(), m + 3, 'added iterations')
        value(env, c, a, b, m + 3, 'added')
        c.gen_iterations(9, d, exec_finalize=False)
        env.check_same(c.get_num_of_executed_iters(), m, 'again')
        value(env, c, a, b, m, 'again')
        c.gen_iterations(5, exec_finalize=False)
        env.check_same(c.get_num_of_executed_iters(), 5, 'without accuracy')
    elif kind == 'refine':
        # the iterations of a refinement: 100 digits more than compared, at the estimated rate
        ep, lhs = env.mod('enum_params'), env.mod('lhs_evaluators')
        count = []
        real = env.mod('basic_representation_types').BasicRecursiveConstRepresenter.gen_iterations

        class C(cf.ContFrac):
            def gen_iterations(self, num_of_iters, accuracy=0, exec_finalize=True, print_calc=False):
                super().gen_iterations(num_of_iters, accuracy, exec_finalize, print_calc)
                count.append(self.get_num_of_executed_iters())
        ep.cont_fracs = FakeModule(cf, C)
        m = ep.MITM(target_generator=lambda: env.mpf('3.25'), prec=200)
        s, n = 2, env.choice('n', [40, 200])
        B = env.mpf(10) ** 2 if t == 'exp' else env.mpf(10) ** 5
        ab = ([[s]], [[1]])
        for info in ((t, (B, env.mpf(1))), None):
            m.filtered_params = [(ab, lhs.ULCDEvaluator((1, 1, 1, 1), env.mpf('3.25')), 0, info)]
            del count[:]
            m.refine_clicks_with_convergence_info(accuracy=8, num_of_iterations=n)
            env.check_same(len(count), 1, 'one run')
            if info is None:
                env.check_same(count[0], n, 'the whole limit')
            else:
                d = 108 // (2 if t == 'exp' else 5)
                env.check(count[0] == n if n <= d else d + 1 <= count[0] <= d + 3, 'iterations at the rate')


class FakeModule(object):
    def __init__(self, m, C):
        self.__dict__.update({k: getattr(m, k) for k in dir(m) if not k.startswith('__')})
        self.ContFrac = C
