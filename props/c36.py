"""C36: the working precision is the one last asked for."""
ID = 'C36'
ASSUMPTIONS = ['precisions are at least 15 digits']
BOUNDS = {'quick': 'every history of 3 operations out of: a constant with a symbolic precision, without one or with zero, a new enumeration of each '
                   'kind, a new search object, redefined settings (these with symbolic precisions), an enumeration resetting its precision, an '
                   'enumeration being run; symbolic precisions in [1, 1000]; the generators of all constants with every legal index, precisions in [15, 1000], also from a precision in [5, 20] to one in [60, 90]',
          'thorough': 'as quick with histories of 4 operations'}
OPS = ('const', 'plain', 'zero', 'normal', 'indexed', 'sparse', 'search', 'redefine', 'reset', 'run')
NAMES = ['gen_pi_const', 'gen_e_const', 'gen_euler_masch_const', 'gen_phi_const', 'gen_apery_const', 'gen_feig_consts', 'gen_percolation_consts',
         'gen_zeta_consts']
# to 15 digits
VALUES = {'gen_pi_const': '3.14159265358979', 'gen_e_const': '2.71828182845905', 'gen_euler_masch_const': '0.577215664901533',
          'gen_phi_const': '1.61803398874989', 'gen_apery_const': '1.20205690315959',
          'gen_feig_consts': ['0.832367236905316', '1.83125898493714', '2.83150900474072', '1.55461804706409'],
          'gen_percolation_consts': ['0.652703644666139', '0.347296355333861']}


def cases(tier):
    out = [dict(kind='hist', first=o, n=3 if tier == 'quick' else 4) for o in OPS]
    for n in NAMES:
        out.append(dict(kind='const', name=n))
        # from a low precision to a higher one
        out.append(dict(kind='const', name=n, low=True))
    return out


def run(env, kind, first=None, n=0, name=None, low=False):
    gc = env.mod('gen_consts')
    mp = env.lib('mpmath').mp
    if kind == 'const':
        p = env.int('p', 15, 1000) if not low else env.int('p', 60, 90)
        q = env.int('q', 15, 1000) if not low else env.int('q', 5, 20)
        g = getattr(gc, name)
        idx = {'gen_feig_consts': range(4), 'gen_percolation_consts': range(2), 'gen_zeta_consts': range(2, 21)}.get(name)
        a = () if idx is None else (env.choice('i', list(idx)),)
        k = {} if idx is None else {'i': a[0]}
        mp.dps = 150
        exact = g(**k)
        mp.dps = q
        form = env.choice('form', ['prec', 'keyword'] if low else ['prec', 'keyword', 'none', 'nothing', 'zero'])
        if form == 'prec':
            v = g(p, *a)
        elif form == 'keyword':
            v = g(prec=p, **k)
        elif form == 'none':
            v = g(None, *a)
        elif form == 'nothing':
            v = g(**k)
        else:
            v = g(0, *a)
        env.check_same(mp.dps, p if form in ('prec', 'keyword') else q, 'working precision')
        want = VALUES.get(name)
        # no digit of the new precision is lost (in the symbolic model numbers are exact)
        tol = 0 if env.symbolic else env.mpf(10) ** (2 - min(90, mp.dps))
        env.check(env.And(v - exact <= tol, exact - v <= tol), 'all digits')
        if name == 'gen_zeta_consts':
            # sum of the first 39 terms and bounds of the tail by integrals
            s = a[0]
            lo = sum(env.mpf(1) / j ** s for j in range(1, 40))
            env.check(env.And(v > lo + env.mpf(1) / ((s - 1) * 40 ** (s - 1)), v < lo + env.mpf(1) / ((s - 1) * 39 ** (s - 1))), 'zeta')
        else:
            want = env.mpf(want if idx is None else want[a[0]])
            env.check(env.And(v - want < env.mpf('1e-14'), want - v < env.mpf('1e-14')), 'value')
        env.obs('dps', mp.dps)
        return
    ep, polys = env.mod('enum_params'), env.mod('enum_poly_params')
    K = {'normal': polys.BasicEnumPolyParams, 'indexed': polys.IndexedParameterEnumPolyParams,
         'sparse': polys.SparseParameterEnumPolyParams}
    now = env.int('start', 1, 1000)
    mp.dps = now
    e, ep_prec, m = None, None, None
    for i in range(n):
        op = env.choice('op%d' % i, list(OPS)) if i else first
        p = env.int('p%d' % i, 1, 1000)
        if op == 'const':
            gc.gen_pi_const(p)
            now = p
        elif op == 'plain':
            gc.gen_e_const()
        elif op == 'zero':
            gc.gen_phi_const(0)
        elif op in K:
            e = K[op](prec=p, special_params=(3, 3)) if op == 'sparse' else K[op](prec=p)
            ep_prec = now = p
        elif op == 'search':
            m = ep.MITM(prec=p, hashtable_prec=8)
            e, ep_prec, now = m.rhs_polys_enumer, p, p
        elif op == 'redefine':
            if m is None:
                m = ep.MITM(hashtable_prec=8)
            m.redefine_settings(prec=p, hashtable_prec=8)
            e, ep_prec, now = m.rhs_polys_enumer, p, p
            env.check_same(m.prec, p, 'precision of the search object')
        elif op == 'reset':
            if e is not None:
                e.reset_precision()
                now = ep_prec
        elif op == 'run':
            if e is not None:
                g, l = e.polys_generator([[[1, 2]]], [[[3, 4]]])
                env.check_same(len(list(g)) >= 1, True, 'polynomials')
        env.check_same(mp.dps, now, 'working precision')
    env.obs('dps', mp.dps)
