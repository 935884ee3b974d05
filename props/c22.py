"""C22: splitting a search for distribution."""
import copy
from props.common import product
ID = 'C22'
ASSUMPTIONS = ['ranges as documented: lists of [low, high) pairs with low < high']
BOUNDS = {'quick': 'split_params: symbolic integer bounds (low in [-60,60], width 1..12, and unbounded low with fixed widths), shapes of up to 2 '
                   'interlaced polynomials of up to 3 coefficients per side, up to 8 parts, membership of an arbitrary symbolic coefficient '
                   'choice; main: parts files for 1, 2, 4 parts of configurations with symbolic integer settings',
          'thorough': 'as quick with 16 parts and width up to 24'}


def cases(tier):
    th = tier != 'quick'
    out = []
    W = 24 if th else 12
    for sa, sb in (([1], [1]), ([2], [1]), ([1], [2]), ([3], [1]), ([2, 1], [1]), ([1], [1, 2]), ([1, 2], [2, 1])):
        for k in (0, 1, 2) + ((3,) if sum(sa) == 1 else ()) + ((4,) if th and sum(sa) == 1 else ()):
            out.append(dict(kind='split', sa=sa, sb=sb, k=k, W=W if k < 2 else (8 if k == 2 and sum(sa) == 1 else 4)))
    for w in (1, 2, 3, 7, 100):
        out.append(dict(kind='wide', w=w, k=3))
    out.append(dict(kind='onlyb', k=2, W=6))
    out.append(dict(kind='tight', k=3))
    for k in (0, 1, 2):
        out.append(dict(kind='files', k=k))
    out.append(dict(kind='files', k=1, sub=True))
    out.append(dict(kind='badnum'))
    for c in out:
        c['_opts'] = dict(max_paths=20000)
    return out


def flat(ab):
    return [(i, j, c) for i, side in enumerate(ab) for j, p in enumerate(side) for c in range(len(p))]


def member(env, part, choice, where):
    cs = []
    for (i, j, c), x in zip(where, choice):
        lo, hi = part[i][j][c]
        cs += [x >= lo, x < hi]
    return env.And(*cs)


def shape(ab):
    return [[len(p) for p in side] for side in ab]


def partition(env, ab, parts, k, tag=''):
    env.check_same(len(parts), 2 ** k, tag + 'number of parts')
    for p in parts:
        env.check_same(shape(p), shape(ab), tag + 'shape')
        for i, j, c in flat(p):
            env.check_same(len(p[i][j][c]), 2, tag + 'bounds')
    where = flat(ab)
    x = [env.int('x%d_%d_%d' % w) for w in where]
    ins = [member(env, p, x, where) for p in parts]
    whole = member(env, ab, x, where)
    env.check(env.Iff(whole, env.Or(*ins)) if len(ins) > 1 else env.Iff(whole, ins[0]), tag + 'every choice is in a part, and nothing else')
    for a in range(len(ins)):
        for b in range(a):
            env.check(env.Not(env.And(ins[a], ins[b])), tag + 'no choice is in two parts')


def run(env, kind, k=0, sa=(), sb=(), W=0, w=0, sub=False):
    d = env.mod('distribute_run')
    if kind == 'split':
        ab = []
        for n, s in (('a', sa), ('b', sb)):
            side = []
            for j, l in enumerate(s):
                p = []
                for c in range(l):
                    lo = env.int('%s%d_%d' % (n, j, c), -60, 60)
                    p.append([lo, lo + env.int('w%s%d_%d' % (n, j, c), 1, W)])
                side.append(p)
            ab.append(side)
        keep = copy.deepcopy(ab)
        # number of halvings available in the first polynomials, per the widths
        exc = env.raises(d.split_params, ab, k)
        env.check_same(ab, keep, 'the ranges are left as they were')
        if exc is not None:
            env.check(isinstance(exc, ValueError), 'indivisible ranges are an error')
            total = 1
            for i in (0, 1):
                for lo, hi in ab[i][0]:
                    total = total * (hi - lo)
            small = env.Or(total < 2 ** (3 * k), *[env.And(*[hi - lo < 2 ** k for lo, hi in ab[i][0]]) for i in (0, 1)])
            env.check(small, 'only indivisible ranges are an error')
            if k == 1:
                env.check(env.And(*[hi - lo <= 1 for i in (0, 1) for lo, hi in ab[i][0]]), 'divisible ranges are divided')
            return
        parts = env.result
        partition(env, ab, parts, k)
        env.obs('parts', parts)
    elif kind == 'wide':
        lo = env.int('lo')
        ab = [[[[lo, lo + w]]], [[[5, 6], [lo, lo + 40]]]]
        keep = copy.deepcopy(ab)
        parts = d.split_params(ab, k)
        env.check_same(ab, keep, 'the ranges are left as they were')
        partition(env, ab, parts, k)
    elif kind == 'onlyb':
        lo = [env.int('l%d' % i, -9, 9) for i in range(3)]
        ws = [env.int('w%d' % i, 1, W) for i in range(2)]
        ab = [[[[lo[0], lo[0] + 1], [3, 4]]], [[[lo[1], lo[1] + ws[0]], [lo[2], lo[2] + ws[1]]], [[-4, 4]]]]
        exc = env.raises(d.split_params, ab, k)
        if exc is not None:
            env.check(isinstance(exc, ValueError), 'error')
            env.check(env.Or(ws[0] * ws[1] < 4, ws[0] == 3, ws[1] == 3), 'only when indivisible')
            return
        partition(env, ab, env.result, k)
    elif kind == 'tight':
        # eight choices, eight parts: one choice each
        lo = env.int('lo', -9, 9)
        ab = [[[[lo, lo + 2], [lo, lo + 2]]], [[[lo, lo + 2]]]]
        parts = d.split_params(ab, 3)
        partition(env, ab, parts, 3)
        env.check(isinstance(env.raises(d.split_params, ab, 4), ValueError), 'a ninth part is an error')
    elif kind == 'badnum':
        s = env.scratch()
        if True:
            for n in (3, 6, 12):
                env.check(isinstance(env.raises(d.main, n, s + '/none.ini'), ValueError), 'powers of 2 only')
    else:
        cp = env.mod('configfile')
        lo, wd = env.int('lo', -9, 9), env.int('w', 1, 3) * 4
        vals = {'i': env.int('i', 0, 20), 'hashtable_num_of_iterations': env.int('hi', 1, 999), 'hashtable_precision': env.int('hp', 1, 99),
                'first_filtering_num_of_iterations': env.int('f1', 1, 999), 'first_filtering_precision': env.int('p1', 1, 99),
                'second_filtering_max_num_of_iterations': env.int('f2', 1, 999), 'second_filtering_precision': env.int('p2', 1, 99),
                'third_filtering_max_num_of_iterations': env.int('f3', 1, 999), 'third_filtering_precision': env.int('p3', 1, 99)}
        ra, rb = [[[lo, lo + wd], [1, 2]]], [[[-2, 3]], [[lo, lo + 1]]]
        typ = env.choice('type', ['normal', 'indexed', 'sparse'])
        lhs = env.choice('lhs', ['ulcd', 'rationalfunc'])
        op = env.choice('op', ['generate', 'use'])
        flag = env.flag('print')
        s = env.scratch()
        if True:
            name = s + ('/sub.d' if sub else '') + '/conf.x.ini'
            if sub:
                import os
                os.mkdir(s + '/sub.d')
            text = '[Setup]\nconst=zeta\nab_polys_type=%s\nab_polys_special_params=%s\nprint_surprising_nonexp_contfracs=%s\n' % (
                typ, '[2, 3]' if typ == 'sparse' else 'none', 'True' if flag else 'false')
            text += 'gen_hashtable_only=auto\na_coeffs_range=%s\nb_coeffs_range=%s\nlhs_type=%s\nlhs_params=[[1, 3], 4, [0, 2], 3]\n' % (
                ra, rb, lhs)
            text += 'postproc_funcs_filter=["safe_sqrt", "lambda x: x", "safe_inverse"]\nhashtable_file_operation=%s\n' % op
            text += 'validate_hashtable_extend_no_replication=false\nis_test=True\n'
            text += 'hashtable_file=%s/tab.y.pkl\n' % s
            for key, v in vals.items():
                text += '%s=%s\n' % (key, v)
            with open(name, 'w') as f:
                f.write(text)
            base = cp.ConfigParser(configfile=name).get_config()
            d.main(2 ** k, name)
            import os
            odir = name[:-4] + '_dist_%d' % 2 ** k
            files = sorted(os.listdir(odir))
            env.check_same(files, sorted('conf.x_%d.ini' % i for i in range(2 ** k)), 'one file per part')
            got = [cp.ConfigParser(configfile=odir + '/conf.x_%d.ini' % i).get_config() for i in range(2 ** k)]
            parts = [[g['a_coeffs_range'], g['b_coeffs_range']] for g in got]
            partition(env, [ra, rb], parts, k, 'files: ')
            tables = [g['hashtable_file'] for g in got]
            env.check_same(len(set(tables)), 2 ** k, 'distinct tables')
            for g, t in zip(got, tables):
                env.check(t != base['hashtable_file'], 'not the original table')
                env.check(t[-4:] == '.pkl', 'a table file')
                for key in cp.CONFIG_PARAMS_TYPES:
                    if key not in ('a_coeffs_range', 'b_coeffs_range', 'hashtable_file'):
                        env.check_same(g[key], base[key], 'setting ' + key)
            with open(name) as f:
                env.check(f.read() == text, 'the configuration is left as it was')
