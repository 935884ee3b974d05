"""C31: a configured run uses the configured values in every stage."""
import os
import inspect
from props.c24 import base, FUNCS
from props.c29 import structure, plain
ID = 'C31'
ASSUMPTIONS = ['the stages themselves (decided by C18 to C22 and C25) are replaced by stand-ins that record the values they are given and each '
               'drop one result; whole runs with the real stages are concrete', 'one run at a time in a directory']
BOUNDS = {'quick': 'every numeric setting and every coefficient range bound an arbitrary symbolic integer, all constants with every legal index '
                   '(symbolic choice), all polynomial and left-hand-side types, all three table operations and chains of two of them, '
                   'search and generation only, an interrupt during any refining stage, subsets of stages dropping results, a search in a '
                   'minute of another one, two whole runs with the real stages',
          'thorough': 'as quick'}
STAGES = ('find_clicks', 'refine_clicks_with_const_num_of_iters', 'refine_clicks_with_convergence_info', 'filter_uniq_params',
          'filter_only_exp_convergence', 'filter_clicks_by_approach_type', 'filter_pos_integer_roots_numerators')
CONSTS = {'e': None, 'pi': None, 'euler_masch': None, 'phi': None, 'apery': None, 'feig': (0, 3), 'percolation': (0, 1), 'zeta': (2, 20)}
GEN = {'feig': 'gen_feig_consts', 'percolation': 'gen_percolation_consts', 'zeta': 'gen_zeta_consts', 'e': 'gen_e_const', 'pi': 'gen_pi_const',
       'euler_masch': 'gen_euler_masch_const', 'phi': 'gen_phi_const', 'apery': 'gen_apery_const'}
PRECS = ('hashtable_num_of_iterations', 'hashtable_precision', 'first_filtering_num_of_iterations', 'first_filtering_precision',
         'second_filtering_max_num_of_iterations', 'second_filtering_precision', 'third_filtering_max_num_of_iterations',
         'third_filtering_precision')


def cases(tier):
    out = []
    for op in ('generate', 'use', 'expand'):
        for only in ('true', 'false', 'auto'):
            out.append(dict(kind='run', op=op, only=only))
        for c in CONSTS:
            out.append(dict(kind='const', op=op, const=c))
        out.append(dict(kind='ranges', op=op))
        for t in ('normal', 'indexed', 'sparse'):
            for l in ('ulcd', 'rationalfunc'):
                out.append(dict(kind='types', op=op, t=t, l=l))
        out.append(dict(kind='funcs', op=op))
    for t in ('normal', 'indexed', 'sparse'):
        for t2 in ('normal', 'indexed', 'sparse'):
            out.append(dict(kind='retype', op='expand', t=t, t2=t2))
    out += [dict(kind='interrupt', op='generate', k=k) for k in range(3)]
    out += [dict(kind='survive', op='use', k=k) for k in range(4)]
    out += [dict(kind='twice', op='use'), dict(kind='badconst', op='generate'), dict(kind='badconst', op='use'),
            dict(kind='noconst', op='generate'), dict(kind='surprise', op='use')]
    out += [dict(kind='saved', op=op) for op in ('use', 'generate')]
    out += [dict(kind='whole', op=o, const=c) for o in ('generate', 'use', 'expand') for c in ('e', 'phi')]
    out += [dict(kind='whole', op='generate', only='true', const='e')]
    return out


SAVED = []


def stand_in(dill):
    """dill as installed cannot load lambdas in this interpreter: the real run keeps copies of the saved objects instead"""
    import copy

    def dump(obj, f, *a, **k):
        SAVED.append(copy.deepcopy(obj))
        f.write(b'saved %d' % (len(SAVED) - 1))

    def load(f, *a, **k):
        return copy.deepcopy(SAVED[int(f.read().split()[1])])

    def dumps(obj, *a, **k):
        SAVED.append(copy.deepcopy(obj))
        return b'saved %d' % (len(SAVED) - 1)

    def loads(b, *a, **k):
        return copy.deepcopy(SAVED[int(b.split()[1])])
    dill.dump, dill.load, dill.dumps, dill.loads = dump, load, dumps, loads


class World:
    """the program with stand-ins for the stages"""
    def __init__(self, env, real=False):
        self.env, self.calls, self.tables = env, [], []
        pp = env.mod('postprocfuncs')
        if not env.symbolic:
            stand_in(env.lib('dill'))
        self.funcs = pp.EVALUATED_POSTPROC_FUNCS
        self.ep = env.mod('enum_params')
        self.main = env.mod('main')
        self.interrupt = None
        self.names = ()
        self.sig = {}
        M = self.ep.MITM
        for name in STAGES + ('build_hashtable',):
            self.sig[name] = inspect.signature(getattr(M, name))
            if not real:
                setattr(M, name, self.stage(name))
        if not real:
            M.get_results_as_eqns = lambda mitm, *a, **k: ['eqn of %s' % (r[3][0],) for r in mitm.filtered_params]
            M.export_to_csv = lambda mitm, filename: self.csv(mitm, filename)
            M.build_hashtable = self.build()
        self.victims = {}
        self.n = 0

    def bound(self, name, a, k):
        b = self.sig[name].bind(*a, **k)
        b.apply_defaults()
        d = dict(b.arguments)
        d.pop('self', None)
        return d

    def stage(self, name):
        def f(mitm, *a, **k):
            d = self.bound(name, (mitm,) + a, k)
            self.n += 1
            d['table'] = dict(dict.items(mitm.dec_hashtable))
            d['mitm'] = mitm
            self.calls.append((name, d))
            if name == 'find_clicks':
                mitm.filtered_params = [((((1,),), ((1,),)), None, 0, ('r%d' % i, 0)) for i in range(12)]
                self.settings(mitm)
                return
            j = len([c for c in self.calls if c[0] == name])
            if self.interrupt == (name, j):
                raise KeyboardInterrupt()
            # each stage drops a result of its own
            v = {'refine_clicks_with_const_num_of_iters': 1, 'filter_only_exp_convergence': 3, 'filter_clicks_by_approach_type': 4,
                 'filter_pos_integer_roots_numerators': 7, 'filter_uniq_params': 2}.get(name)
            if name == 'refine_clicks_with_convergence_info':
                v = 4 + j               # 5, 6
            self.victims[name, j] = v
            if v in self.names:
                mitm.filtered_params = [r for r in mitm.filtered_params if r[3][0] != 'r%d' % v]
        return f

    def settings(self, mitm):
        self.target = mitm.target_generator()
        self.target_name = mitm.target_name

    def csv(self, mitm, filename):
        self.exported = (filename, [r[3][0] for r in mitm.filtered_params])
        with open(filename, 'w') as f:
            f.write('\n'.join(self.exported[1]))

    def build(self):
        def f(mitm, *a, **k):
            d = self.bound('build_hashtable', (mitm,) + a, k)
            self.n += 1
            d['mitm'] = mitm
            d['table'] = dict(dict.items(mitm.dec_hashtable))
            self.calls.append(('build_hashtable', d))
            self.settings(mitm)
            d['iters'] = mitm._polys_enumer_num_of_iterations
            d['enumer'] = mitm.rhs_polys_enumer
            d['acc'] = mitm.dec_hashtable.accuracy
            d['filter'] = list(mitm.postproc_funcs_filter)
            mitm.dec_hashtable['0.%d234567890123456789' % self.n] = [((((self.n,),), ((1,),)), 0)]
        return f

    def run(self, conf):
        with open('run.ini', 'w') as f:
            f.write('[Setup]\n' + ''.join('%s=%s\n' % kv for kv in conf.items()))
        del self.calls[:]
        self.exported = None
        self.main.main('run.ini')

    def got(self, name):
        return [d for n, d in self.calls if n == name]


def rd(name):
    with open(name, 'rb') as f:
        return f.read()


def tree():
    return sorted(os.path.join(d, f) for d, _, fs in os.walk('.') for f in fs)


def table(env, name):
    with open(name, 'rb') as f:
        return env.lib('dill').load(f)


def content(m):
    return [(k, v) for k, v in sorted(dict.items(m.dec_hashtable)) if k != 'parameters']


def check_search(env, w, conf, vals, le, lhs_type, lhs_params, names=None, cut=None):
    """the stages of a search got the configured values, and its result files show the results left"""
    c = w.got('find_clicks')
    env.check(len(c) == 1, 'one search')
    c = c[0]
    vs = list(c.values())
    env.check(any(v is le.LHS_TYPES[lhs_type] for v in vs), 'the configured type of left-hand side')
    env.check(env.Or(*[env.same(v, lhs_params) for v in vs if isinstance(v, (list, tuple))]), 'the configured left-hand-side parameters')
    c = w.got('refine_clicks_with_const_num_of_iters')
    env.check(len(c) == 1, 'first refining')
    env.check_same(c[0]['accuracy'], vals['first_filtering_precision'], 'first filtering precision')
    env.check_same(c[0]['num_of_iterations'], vals['first_filtering_num_of_iterations'], 'first filtering iterations')
    c = w.got('refine_clicks_with_convergence_info')
    env.check(len(c) >= 1, 'second refining')
    env.check_same(c[0]['accuracy'], vals['second_filtering_precision'], 'second filtering precision')
    env.check_same(c[0]['num_of_iterations'], vals['second_filtering_max_num_of_iterations'], 'second filtering iterations')
    if cut is None or cut > 0:
        env.check(len(c) == 2, 'third refining')
        env.check_same(c[1]['accuracy'], vals['third_filtering_precision'], 'third filtering precision')
        env.check_same(c[1]['num_of_iterations'], vals['third_filtering_max_num_of_iterations'], 'third filtering iterations')
    env.check(len(w.got('filter_only_exp_convergence')) == 1, 'filter by convergence')
    env.check(len(w.got('filter_uniq_params')) >= 1, 'filter of duplicates')
    c = w.got('filter_clicks_by_approach_type')
    env.check(len(c) == 1, 'filter by approach type')
    env.check(c[0].get('whitelist') is not None and sorted(c[0]['whitelist']) == ['exp', 'super_exp'] and not c[0].get('blacklist'),
              'fast converging results are kept')
    if cut is None:
        env.check(len(w.got('filter_pos_integer_roots_numerators')) == 1, 'filter of vanishing numerators')
    order = [n for n, _ in w.calls if n in STAGES]
    env.check(order[0] == 'find_clicks', 'the search comes first')
    dropped = {v for v in w.victims.values()} if names is None else names
    want = ['r%d' % i for i in range(12) if i not in dropped or i not in w.names]
    if cut is not None:
        want = [x for x in want]
    env.check(w.exported is not None, 'results are exported')
    env.check(w.exported[1] == want, 'exactly the results left after the stages')
    docs = env.latex['Document'].docs
    env.check(len(docs) >= 1, 'a document')
    env.check(docs[-1].filename is not None and os.path.split(docs[-1].filename)[0] == os.path.split(w.exported[0])[0], 'in the same directory')
    text = str(flat(docs[-1]))
    env.check(all(('eqn of %s\'' % x in text) == (x in want) for x in ['r%d' % i for i in range(12)]), 'the document shows the results left')
    env.check(os.path.isfile(os.path.join(os.path.split(w.exported[0])[0], 'config.ini')), 'the configuration is saved with the results')


def flat(node):
    return [flat(x) for x in node.items] if hasattr(node, 'items') else node


def run(env, kind, op, only=None, const='zeta', t='sparse', l='ulcd', k=0, t2=None):
    s = env.scratch()
    if kind == 'whole':
        return whole(env, op, only, const)
    w = World(env)
    cp, ep, le = env.mod('configfile'), env.mod('enum_poly_params'), env.mod('lhs_evaluators')
    gc = env.mod('gen_consts')
    conf = base('.')
    conf.update(is_test='false', hashtable_file_operation=op, const=const, i='3', gen_hashtable_only=only or 'false', ab_polys_type=t, lhs_type=l)
    if l != 'ulcd':
        conf['lhs_params'] = '[[[1, 3], [0, 2]], [[2, 5]], true]'
    lhs_params = [[1, 3], 4, [2, 9, 3], 4] if l == 'ulcd' else [[[1, 3], [0, 2]], [[2, 5]], True]
    vals = {}
    ra, rb = [[[-4, 4], [-3, 5]]], [[[1, 2]]]
    i = 3
    # an earlier run has left a table
    prior = op != 'generate'
    if prior:
        c0 = dict(conf, hashtable_file_operation='generate', gen_hashtable_only='true', const='pi', ab_polys_type='normal',
                  hashtable_precision='6', hashtable_num_of_iterations='77', postproc_funcs_filter='["lambda x: x**3"]')
        if kind == 'retype':
            c0['ab_polys_type'] = t
            conf['ab_polys_type'] = t = t2
            c0['ab_polys_special_params'] = '[3, 4]'
        w.run(c0)
        env.check(os.path.isfile('tab_v1.pkl'), 'the table is saved under the chosen name')
        old, oldc = rd('tab_v1.pkl'), content(table(env, 'tab_v1.pkl'))
        w.calls[:] = []
    if kind in ('run', 'survive', 'interrupt', 'saved'):
        for p in PRECS:
            vals[p] = env.int(p, 1) if p != 'hashtable_precision' else env.int(p, 5, 12)
            conf[p] = env.text('%s', vals[p])
    else:
        vals = {p: 11 + j for j, p in enumerate(PRECS)}
    if kind == 'ranges':
        ra = [[[env.int('a0'), env.int('a1')], [-3, 5]], [[0, env.int('a2')]]]
        rb = [[[env.int('b0'), 7]], [[1, 2], [env.int('b1'), 3]]]
        conf['a_coeffs_range'] = js(env, ra)
        conf['b_coeffs_range'] = js(env, rb)
        lhs_params = [[1, env.int('u')], [2, 3], 4, [env.int('d'), 5]]
        conf['lhs_params'] = js(env, lhs_params)
    if kind == 'const' and CONSTS[const]:
        lo, hi = CONSTS[const]
        i = env.conc(env.int('i', lo, hi))
        conf['i'] = str(i)
    fs = [10, 0]
    if kind == 'funcs':
        fs = [env.choice('f0', range(24)), 5]
        conf['postproc_funcs_filter'] = '["%s", "%s"]' % (FUNCS[fs[0]], FUNCS[fs[1]])
    if kind in ('badconst', 'noconst'):
        conf['const'] = 'nosuch' if kind == 'badconst' else 'none'
        before = [(f, rd(f)) for f in tree() if f != './run.ini']
        e = env.raises(w.run, conf)
        env.check(e is not None, 'an unknown constant stops the run')
        env.check([(f, rd(f)) for f in tree() if f != './run.ini'] == before and not os.path.exists('results'), 'nothing is written')
        env.check(not w.calls, 'no stage is run')
        return
    if kind == 'survive':
        w.names = [(1, 2, 3, 4, 5, 6, 7), (), (2, 5, 7), (1, 3, 4, 6)][k]
    if kind == 'interrupt':
        w.interrupt = [('refine_clicks_with_convergence_info', 2), ('filter_pos_integer_roots_numerators', 1), ('filter_uniq_params', 2)][k]
        w.names = (1, 3, 4, 5)
    if kind == 'surprise':
        v = env.flag('print')
        conf['print_surprising_nonexp_contfracs'] = 'true' if v else 'false'
    w.run(conf)
    # ---- the table
    gen_only = only == 'true' or (only == 'auto' and op != 'use')
    built = w.got('build_hashtable')
    if op == 'use':
        env.check(not built, 'using builds nothing')
        env.check(rd('tab_v1.pkl') == old, 'using leaves the table alone')
        env.check([f for f in tree() if f.endswith('.pkl')] == ['./tab_v1.pkl'], 'no other table is saved')
    else:
        env.check(len(built) == 1, 'the table is built')
        d = built[0]
        env.check_same(d['range_a'], ra, 'range of a')
        env.check_same(d['range_b'], rb, 'range of b')
        env.check_same(d['iters'], vals['hashtable_num_of_iterations'], 'number of iterations of the table')
        env.check_same(d['acc'], vals['hashtable_precision'] + 1, 'precision of the table')
        env.check(type(d['enumer']) is ep.AB_POLYS_TYPES[t], 'type of polynomials')
        if t == 'sparse':
            env.check((d['enumer'].n_a, d['enumer'].n_b) == (1, 2), 'parameters of the polynomials')
        env.check(sorted(d['filter']) == sorted(fs), 'functions')
        # an expanded table is saved as a new version
        name = 'tab_v2.pkl' if op == 'expand' else 'tab_v1.pkl'
        env.check([f for f in tree() if f.endswith('.pkl')] == ['./tab_v1.pkl'] + ['./' + name] * (op == 'expand'), 'one table file is added')
        if op == 'expand':
            env.check(rd('tab_v1.pkl') == old, 'expanding leaves the loaded table alone')
        m = table(env, name)
        now = content(m)
        new = [kv for kv in now if kv not in (oldc if prior else [])]
        env.check(len(new) == 1 and new[0][1][0][0] == (((w.n if not w.got('find_clicks') else built_at(w),),), ((1,),)), 'the new entries are saved')
        if prior:
            env.check(all(kv in now for kv in oldc) and len(now) == len(oldc) + 1, 'the old entries are kept')
    if not gen_only:
        d = w.got('find_clicks')
        env.check(len(d) == 1, 'a search is run')
        tab = {k_: v_ for k_, v_ in d[0]['table'].items() if k_ != 'parameters'}
        want = dict(oldc) if op == 'use' else dict(now)
        env.check(tab == want, 'the search uses the table')
        for p in PRECS:
            vals.setdefault(p, None)
        cut = None
        if kind == 'interrupt':
            cut = 0 if k == 0 else 1
        if kind == 'interrupt':
            check_search(env, w, conf, vals, le, l, lhs_params, names={1, 3, 4, 5}, cut=1)
        else:
            check_search(env, w, conf, vals, le, l, lhs_params)
        if kind == 'surprise':
            c = w.got('filter_only_exp_convergence')[0]
            env.check(any(x is v for x in c.values()) or any(env.same(x, v) is True for x in c.values() if isinstance(x, bool)),
                      'printing of surprises as configured')
    else:
        env.check(not [n for n, _ in w.calls if n in STAGES] and w.exported is None and not os.path.exists('results'), 'generation only')
    if not (gen_only and op == 'use'):
        g = getattr(gc, GEN[const])
        want = g(i=i) if CONSTS[const] else g()
        env.check_same(w.target, want, 'the configured constant')
        env.check(w.target_name == ('%s, %d' % (const, i) if const in ('feig', 'percolation') else const), 'its name')
    if kind == 'twice':
        first = w.exported
        saved = [(f, rd(f)) for f in tree() if f.startswith('./results')]
        w.names = (1, 2)
        w.victims.clear()
        w.run(conf)
        check_search(env, w, conf, vals, le, l, lhs_params)
        env.check(w.exported[0] != first[0] and all(rd(f) == c for f, c in saved), 'the results of the earlier search are kept')
    if kind == 'saved':
        d = os.path.split(w.exported[0])[0]
        got = cp.ConfigParser(os.path.join(d, 'config.ini')).get_config()
        for p in PRECS:
            env.check_same(got[p], vals[p], 'saved ' + p)
        env.check_same(got['a_coeffs_range'], ra, 'saved range')
        env.check_same(got['i'], 3, 'saved index')
        env.check(got['const'] == const and got['lhs_type'] is le.LHS_TYPES[l] and got['ab_polys_type'] is ep.AB_POLYS_TYPES[t], 'saved types')
        env.check(sorted(got['postproc_funcs_filter']) == sorted(fs), 'saved functions')


def built_at(w):
    """position of the build among the calls so far (the number its entry shows)"""
    return w.n - len(w.calls) + [n for n, _ in w.calls].index('build_hashtable') + 1


def js(env, x):
    if isinstance(x, (list, tuple)):
        return '[' + ', '.join(js(env, y) for y in x) + ']'
    return env.text('%s', x)


def whole(env, op, only, const):
    """a run with the real stages: e = 3 - 1/(4 - 2/(5 - 3/(6 - ... and phi = 1 + 1/(1 + ..."""
    import csv
    main = env.mod('main')
    if not env.symbolic:
        stand_in(env.lib('dill'))
    conf = base('.')
    conf.update(is_test='false', hashtable_file_operation='generate', const=const, gen_hashtable_only=only or 'false', ab_polys_type='normal',
                ab_polys_special_params='none', a_coeffs_range='[[[2, 4], [1, 2]]]', b_coeffs_range='[[[0, 1], [-1, 0]]]', lhs_type='ulcd',
                lhs_params='[[0, 1], [1, 2], [0, 1], [1, 2]]', postproc_funcs_filter='["lambda x: x"]')
    conf.update(hashtable_num_of_iterations='60', hashtable_precision='12', first_filtering_num_of_iterations='80',
                first_filtering_precision='15', second_filtering_max_num_of_iterations='120', second_filtering_precision='20',
                third_filtering_max_num_of_iterations='150', third_filtering_precision='30')
    cf = [[3, 1]], [[0, -1]]
    if const == 'phi':
        conf.update(a_coeffs_range='[[[1, 3]]]', b_coeffs_range='[[[1, 3]]]')
        cf = [[1]], [[1]]

    def go(**k):
        conf.update(k)
        with open('run.ini', 'w') as f:
            f.write('[Setup]\n' + ''.join('%s=%s\n' % kv for kv in conf.items()))
        main.main('run.ini')
    # (the estimate of the rate of convergence is outside: C33)
    env.mod('cont_fracs').ContFrac.estimate_approach_type_and_params = lambda cf, *a, **k: cf.set_approach_type_and_params(('exp', (2, 1)))
    if op == 'use':
        go(gen_hashtable_only='true', const='pi')
        go(gen_hashtable_only='false', const=const, hashtable_file_operation='use')
    elif op == 'expand':
        # the continued fraction is among the added ones
        r = conf['a_coeffs_range']
        go(gen_hashtable_only='true', a_coeffs_range='[[[5, 7]]]')
        go(gen_hashtable_only='false', a_coeffs_range=r, hashtable_file_operation='expand')
    else:
        go()
    env.check(sorted(f for f in os.listdir('.') if f.endswith('.pkl')) == ['tab_v1.pkl'] + ['tab_v2.pkl'] * (op == 'expand'), 'the table is saved')
    if only == 'true':
        env.check(not os.path.exists('results'), 'generation only')
        return
    ds = os.listdir('results')
    env.check(len(ds) == 1, 'one directory of results')
    d = os.path.join('results', ds[0])
    with open(os.path.join(d, 'results.csv'), newline='') as f:
        rows = list(csv.reader(f))
    env.check(rows[0][1] == const, 'target name')
    env.check(len(rows) == 3, 'one result')
    env.check(plain(structure(env, rows[2][0], 'a')) == cf[0] and plain(structure(env, rows[2][1], 'b')) == cf[1], 'the continued fraction')
    env.obs('rows', rows[2][:5])
