"""C37: new settings for an existing search object."""
ID = 'C37'
ASSUMPTIONS = ['an object configured anew is the reference: what it does is decided by C06-C09, C18-C20, C26 and C29']
BOUNDS = {'quick': 'every single setting (target, truncation, table accuracy, function filter, function list, polynomial class, number of iterations, '
                   'working precision), all of them, and none changed between two configurations, in both directions, with and without a table and results '
                   'from before; ranges that start at symbolic integers in [-3,3]; searches and refinements with a symbolic target and symbolic '
                   'values; equations and spreadsheets of one result',
          'thorough': 'as quick with integers in [-7,7] and two changes of settings in a row'}

SETTINGS = ('none', 'target', 'trunc', 'accuracy', 'accuracy2', 'filter', 'funcs', 'sparse', 'indexed', 'iters', 'prec', 'all')
BACK = ('trunc', 'accuracy', 'filter', 'funcs', 'sparse', 'iters', 'all')


def cases(tier):
    th = tier != 'quick'
    B = 7 if th else 3
    out = []
    for what in SETTINGS:
        for back in (False, True) if what in BACK else (False,):
            for before in (False, True):
                out.append(dict(kind='build', what=what, back=back, before=before, B=B))
    for what in ('none', 'target', 'trunc', 'accuracy', 'funcs', 'all'):
        for back in (False, True):
            out.append(dict(kind='search', what=what, back=back, before=back, B=B))
            out.append(dict(kind='refine', what=what, back=back, before=back, B=B))
    for what in ('none', 'target', 'funcs', 'all'):
        out.append(dict(kind='export', what=what, back=False, before=True, B=B))
        out.append(dict(kind='export', what=what, back=True, before=True, B=B))
    if th:
        for what in SETTINGS[1:]:
            out.append(dict(kind='build', what=what, back=True, before=True, B=B, twice=True))
    for c in out:
        c['_opts'] = dict(tables=True)
    return out


def settings(env, what, x, y):
    """two configurations that differ in one setting, or in all of them"""
    polys = env.mod('enum_poly_params')
    post = env.mod('postprocfuncs')
    n = env.mod('enum_params')
    A = dict(target_generator=lambda: x, target_name='first', trunc_integer=True, hashtable_prec=4, prec=60, postproc_funcs_filter=(0,),
             ab_poly_class=polys.BasicEnumPolyParams, ab_poly_special_params=None, num_of_iterations=2,
             postproc_funcs=list(post.EVALUATED_POSTPROC_FUNCS), postproc_funcs_text=list(post.POSTPROC_FUNCS),
             postproc_funcs_latex=dict(post.POSTPROC_FUNCS_LATEX))
    own = ['lambda x: 3*x', 'lambda x: x+2', 'lambda x: x']
    new = dict(
        target=dict(target_generator=lambda: y, target_name='second'),
        trunc=dict(trunc_integer=False),
        accuracy=dict(hashtable_prec=6),
        accuracy2=dict(hashtable_prec=3),
        filter=dict(postproc_funcs_filter=(2, 0)),
        funcs=dict(postproc_funcs=[lambda v: 3 * v, lambda v: v + 2, lambda v: v], postproc_funcs_text=own,
                   postproc_funcs_latex={t: (lambda a, b: (a + '!', b + '?')) for t in own}),
        sparse=dict(ab_poly_class=polys.SparseParameterEnumPolyParams, ab_poly_special_params=(2, 2)),
        indexed=dict(ab_poly_class=polys.IndexedParameterEnumPolyParams),
        iters=dict(num_of_iterations=1),
        prec=dict(prec=70))
    Bs = dict(A)
    for k in new:
        if k == what or (what == 'all' and k in ('target', 'trunc', 'accuracy', 'filter', 'funcs', 'iters', 'prec')):
            Bs.update(new[k])
    if what == 'all':
        Bs['postproc_funcs_filter'] = (1, 0)
    return A, Bs


def entries(m):
    t = m.dec_hashtable
    return [(k, g) for k in list(t) if k != 'parameters' for g in t[k]]


def flat(g):
    return [g[0][0], g[0][1], g[1]]


def run(env, kind, what, back, before, B, twice=False):
    ep, le = env.mod('enum_params'), env.mod('lhs_evaluators')
    mp = env.lib('mpmath').mp
    x, y = env.mpf('3.25'), env.mpf('2.5')
    if kind in ('search', 'refine') and what in ('target', 'all'):
        y = env.int('y', 1, 99) / env.mpf(8)
    A, Z = settings(env, what, x, y)
    if back:
        A, Z = Z, A
    exp_only = env.flag('exp') if kind == 'build' else True
    m = ep.MITM(enum_only_exp_conv=exp_only, **A)
    old = []
    s, t = env.int('s', -B, B), env.int('t', -B, B)
    ra, rb = [[[s, s + 1], [1, 2]]], [[[t, t + 1]]]
    if what == 'sparse' and kind == 'build':
        ra = [[[s, s + 1]]]
    ab = (((2, 1),), ((3,),))
    if before:
        if kind == 'build':
            m.build_hashtable(ra, rb)
            old = entries(m)
        m.filtered_params = [(ab, le.ULCDEvaluator((0, 1, 0, 1), x), 0, None)]
    given = dict(Z)
    if what not in ('iters', 'all'):
        del given['num_of_iterations']      # left as it is
    if twice:
        m.redefine_settings(**A)
        m.redefine_settings(**Z)
        m.redefine_settings(**A)
    m.redefine_settings(**given)
    env.check_same(mp.dps, Z['prec'], 'working precision')
    env.check_same(list(m.get_filtered_params()), [], 'results of the earlier settings are forgotten')
    env.check_same(len(entries(m)), len(old), 'the table is kept')
    fresh = ep.MITM(enum_only_exp_conv=exp_only, **Z)
    if kind == 'build':
        fresh.build_hashtable(ra, rb)
        have = m.dec_hashtable
        extra = 0
        known = []
        for k, g in entries(fresh):
            known.append(any(bool(env.same(flat(h), flat(g))) for h in have.get(k, [])))
        m.build_hashtable(ra, rb)
        if before and what in ('accuracy', 'accuracy2') and Z['hashtable_prec'] < A['hashtable_prec']:
            # found before under more digits
            same = entries(m)
            env.check_same(len(same), len(entries(fresh)), 'nothing is stored twice')
            for k, g in entries(fresh):
                env.check_same(sum(1 for _, h in same if bool(env.same(flat(h), flat(g)))), 1, 'kept once')
            return
        for i, (k, g) in enumerate(entries(fresh)):
            n = sum(1 for h in have.get(k, []) if bool(env.same(flat(h), flat(g))))
            env.check_same(n, 1, 'stored under the new settings')
            if not known[i]:
                extra += 1
        for k, g in old:
            n = sum(1 for h in have.get(k, []) if bool(env.same(flat(h), flat(g))))
            env.check_same(n, 1, 'still stored')
        env.check_same(len(entries(m)), len(old) + extra, 'nothing else is stored')
    elif kind == 'search':
        r = env.real('r', 0, 1) if Z['trunc_integer'] else env.real('r', 0, 20)
        if Z['trunc_integer']:
            env.assume(r < 1)
        res = []
        for o in (m, fresh):
            o.dec_hashtable[r] = [(ab, 0), (ab, 2)]
            o.find_clicks({'enum': le.ULCDEnumerator, 'eval': le.ULCDEvaluator}, [[0, 1], [1, 2], [-1, 2], [1, 3]])
            res.append([[list(g[0]), list(g[1].get_params()), g[1].get_val(), g[2], g[3]] for g in o.get_filtered_params()])
        env.obs('found', len(res[1]))
        env.check_same(res[0], res[1], 'the same clicks as with an object configured anew')
    elif kind == 'refine':
        p = env.int('p', -20, 20)
        res = []
        for o in (m, fresh):
            o.filtered_params = [((((p, 1),), ((7,),)), le.ULCDEvaluator((0, 2, c, 2), o.target_generator()), f, None)
                                 for c, f in ((0, 0), (1, 2), (3, 1))]
            o.refine_clicks_with_const_num_of_iters(2, 1)
            res.append([[g[0][0], g[0][1], list(g[1].get_params()), g[1].get_val(), g[2], g[3]] for g in o.get_filtered_params()])
        env.obs('kept', len(res[1]))
        env.check_same(res[0], res[1], 'the same results as with an object configured anew')
    else:
        funcs = list(Z['postproc_funcs_text'])
        c = env.conc(env.int('c', 1, 3))
        out = []
        for i, o in enumerate((m, fresh)):
            o.filtered_params = [(ab, le.ULCDEvaluator((0, 1, c, 2), o.target_generator()), f, ('exp', 2)) for f in (0, 1, 2)]
            name = env.scratch() + '/out%d.csv' % i
            o.export_to_csv(name)
            with open(name, newline='') as f:
                rows = f.read().splitlines()
            # (functions are shown with their address)
            rows = [l if '<function' not in l else l.split('<function')[0] + l.split('>', 1)[1] for l in rows]
            out.append([rows, list(o.get_results_as_eqns(funcs))])
        env.check(Z['target_name'] in out[1][0][0], 'target of the settings')
        env.check_same(out[0], out[1], 'the same files as from an object configured anew')
