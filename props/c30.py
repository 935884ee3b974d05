"""C30: joining and repairing saved tables."""
import os
from props.common import same_bag
ID = 'C30'
ASSUMPTIONS = ['saved tables hold the entry of textual key "parameters" that a run stores in every table',
               'joined tables have one and the same accuracy (others are refused)']
BOUNDS = {'quick': 'joins of up to 3 tables with up to 2 keys each, keys symbolic reals in [0,1), symbolic entries, any coincidence of keys, earlier '
                   'accuracies (equal or different) in one or both tables; repairs of tables of up to 3 keys and 3 entries, b interlaces of up to 3 polynomials of up '
                   'to 3 symbolic coefficients in [-4, 4] (linear ones unbounded)',
          'thorough': 'as quick with joins of 4 tables and repairs with one more symbolic polynomial'}


def cases(tier):
    th = tier != 'quick'
    out = [dict(kind='join', n=n, k=k) for n, k in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)) + (((3, 2), (4, 1)) if th else ())]
    out += [dict(kind='exists', n=1, k=s) for s in range(3)]
    out += [dict(kind='history', n=2, k=s) for s in range(5)]
    out += [dict(kind='accuracy', n=2, k=1), dict(kind='noise', n=2, k=1), dict(kind='dirs', n=2, k=1), dict(kind='chain', n=3, k=1),
            dict(kind='parameters', n=2, k=1), dict(kind='empty', n=2, k=0)]
    out += [dict(kind='fix', n=n, k=k) for n, k in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1))]
    out += [dict(kind='shape', n=1, k=s) for s in range(9)]
    out += [dict(kind='names', n=1, k=s) for s in range(5)]
    out += [dict(kind='repeat', n=1, k=2), dict(kind='emptykey', n=2, k=0), dict(kind='joined', n=2, k=1)]
    if th:
        out += [dict(kind='fix', n=3, k=2), dict(kind='fix', n=1, k=4)]
    return out


def mitm(env, acc=4, name='e'):
    ep, pp, gc = env.mod('enum_params'), env.mod('postprocfuncs'), env.mod('gen_consts')
    # (functions that pickle by name: dill as installed cannot load lambdas in this interpreter)
    funcs = [pp.safe_inverse, pp.safe_sqrt]
    m = ep.MITM(target_generator=gc.gen_e_const, target_name=name, postproc_funcs=funcs, postproc_funcs_latex={}, hashtable_prec=acc)
    m.dec_hashtable['parameters'] = {'target_generator': gc.gen_e_const, 'target_name': name, 'POSTPROC_FUNCS': funcs}
    return m


def save(env, m, name):
    with open(name, 'wb') as f:
        env.lib('dill').dump(m, f, protocol=env.lib('dill').HIGHEST_PROTOCOL)


def load(env, name):
    with open(name, 'rb') as f:
        return env.lib('dill').load(f)


def rd(name):
    with open(name, 'rb') as f:
        return f.read()


def entries(t):
    return [(k, v) for k, v in dict.items(t) if k != 'parameters']


def flat(t):
    return [e for k, v in entries(t) for e in v]


def run(env, kind, n, k):
    env.lib('mpmath').mp.dps = 60
    s = env.scratch()
    cnt = [0]

    def real(lo=0, hi=1):
        cnt[0] += 1
        v = env.real('x%d' % cnt[0], lo, hi)
        env.assume(v < hi)
        return v

    def entry():
        cnt[0] += 1
        return (([[env.int('a%d' % cnt[0])]], [[1, 2]]), (cnt[0], ('exp', 1)))
    if kind in ('join', 'exists', 'history', 'accuracy', 'noise', 'dirs', 'chain', 'parameters', 'empty'):
        jh = env.mod('join_hashtables')
        d = 'tables.d' if kind == 'dirs' else 'tables'
        os.mkdir(d)
        files, all_, stored = [], [], []
        for i in range(n):
            first = 4
            if kind == 'accuracy' and i:
                first = 6
            elif kind == 'history' and k >= 3 and i == k - 3:
                first = 2                   # both tables were expanded, from different accuracies
            m = mitm(env, first)
            t = m.dec_hashtable
            if kind == 'history' and (k >= 2 or i == k):
                x, e = real(), entry()
                t[x] = [e]
                stored.append((x, e, t.accuracy))
                t.update_accuracy(6)
            elif kind == 'history':
                t.accuracy = 7
            for j in range(1 if kind == 'history' else k):
                x, e = real(), entry()
                if kind == 'history' and bool(x in t):
                    continue                # shares its leading digits with the older key
                if x in t:
                    t[x].append(e)
                else:
                    t[x] = [e]
                if kind == 'join' and j == 0:
                    e2 = entry()
                    t[x].append(e2)
                    stored.append((x, e2, t.accuracy))
                stored.append((x, e, t.accuracy))
            all_ += flat(t)
            f = os.path.join(d, 'tab%d%s.pkl' % (i, '_v1' if i % 2 else ''))
            save(env, m, f)
            files.append(f)
        if kind == 'noise':
            for f in ('readme.txt', 'tab9.pkl.bak', 'tab', 'pkl'):
                with open(os.path.join(d, f), 'wb') as fh:
                    fh.write(b'no table')
        before = [(f, rd(f)) for f in files]
        listing = sorted(os.listdir(d))
        out = 'joined_hashtable.pkl'
        args = (d,)
        if kind == 'dirs':
            os.mkdir('results.d')
            out = os.path.join('results.d', 'all.pkl')
            args = (d, out)
        elif kind == 'exists':
            if k:
                out = 'mine.pkl'
                args = (d, out)
            if k == 2:
                out = os.path.join(d, 'tab0.pkl')
                args = (d, out)
            else:
                with open(out, 'wb') as fh:
                    fh.write(b'precious')
            keep = rd(out)
            env.raises(jh.main, *args)
            env.check(rd(out) == keep, 'the existing file is left alone')
            env.check(sorted(os.listdir(d)) == listing, 'nothing else is written')
            return
        elif kind == 'accuracy':
            e = env.raises(jh.main, *args)
            env.check(e is not None, 'different accuracies are refused')
            env.check(not os.path.exists(out), 'and nothing is written')
            return
        elif kind == 'chain':
            # joining a join with the rest
            os.mkdir('first')
            os.rename(files[0], os.path.join('first', 'tab0.pkl'))
            os.rename(files[1], os.path.join('first', 'tab1.pkl'))
            jh.main('first', os.path.join(d, 'part.pkl'))
            before, listing = before[2:], sorted(os.listdir(d))
        jh.main(*args)
        env.check(sorted(os.listdir(d)) == listing and all(rd(f) == c for f, c in before), 'the inputs are left alone')
        env.check(os.path.isfile(out), 'the output is written')
        r = load(env, out)
        t = r.dec_hashtable
        same_bag(env, flat(t), all_, 'every entry of every input, once each')
        env.check_same(t.accuracy, 7 if kind == 'history' else 5, 'accuracy')
        env.check('parameters' in t, 'the parameters are kept')
        for x, e, acc in stored:
            env.check(bool(x in t), 'every key is found')
            if kind != 'history':
                env.check(env.Or(*[env.same(e, w) for w in t[x]]), 'with its entries')
        if kind == 'history':
            # no key is filed under digits of another length
            env.check(len(entries(t)) >= 1, 'keys')
        env.check_same(r.target_name, 'e', 'settings')
        return
    fx = env.mod('fix_hashtable_filter_init_b_root')
    bad = env.mod('enum_poly_params').BasicEnumPolyParams._does_have_integer_roots
    C = lambda nm: env.int(nm, -4, 4)
    m = mitm(env)
    t = m.dec_hashtable
    want = []
    base = env.path(s, 'tab_v1')
    name, fixed = 'tab_v1.pkl', 'tab_v1_fixed.pkl'
    if kind == 'names':
        name, fixed = [('sub.d/tab.pkl', 'sub.d/tab_fixed.pkl'), ('tab.v2.pkl', 'tab.v2_fixed.pkl'), ('tab_fixed.pkl', 'tab_fixed_fixed.pkl'),
                       ('./tab.pkl', './tab_fixed.pkl'), (os.path.join(s, 'tab.pkl'), os.path.join(s, 'tab_fixed.pkl'))][k]
        os.mkdir('sub.d')
    if kind == 'emptykey':
        lists = [[], [[[1, 2]]]]
    elif kind == 'shape':
        b = [lambda: [[C('b0'), C('b1')]], lambda: [[C('b0'), C('b1'), C('b2')]], lambda: [[C('b0')]],
             lambda: [[1, 2], [C('b0'), C('b1')]], lambda: [[C('b0'), C('b1')], [1, 3]], lambda: [[5, 3], [7], [C('b0'), C('b1')]],
             lambda: [[0, 0, C('b0'), C('b1')]], lambda: [[C('b0'), 0, 0, C('b1')]], lambda: [[C('b0'), 1], [C('b1'), 1]]][k]()
        lists = [[b, [[1, 2]]]]
    elif kind == 'repeat':
        b = [[C('b0'), C('b1')]]
        lists = [[b, b, [[1, 2]], b]]
    else:
        if kind == 'names':
            n, k = 1, 2
        lists = [[[[env.int('b%d_%d' % (i, j), -9, 9), 2 + j]] for j in range(k)] for i in range(n)]
        if kind == 'fix' and n == 1 and k == 1:
            lists = [[[[env.int('b0'), 3]]]]
    for i, l in enumerate(lists):
        es = [(([[1, i]], b), (j, ('exp', i))) for j, b in enumerate(l)]
        t[env.mpf('0.%d1234' % (i + 1))] = es
        kept = [e for e, b in zip(es, l) if not any(bad(p) for p in b)]
        if kept:
            want.append((i, kept))
    if kind == 'joined':
        # a repair of a join
        os.mkdir('in')
        save(env, m, os.path.join('in', 'a.pkl'))
        save(env, mitm(env), os.path.join('in', 'b.pkl'))
        env.mod('join_hashtables').main('in', name)
    else:
        save(env, m, name)
    before = rd(name)
    fx.main(name)
    env.check(rd(name) == before, 'the input is left as it was')
    env.check(os.path.isfile(fixed), 'the output file')
    r = load(env, fixed)
    got = r.dec_hashtable
    env.check_same(len(entries(got)), len(want), 'keys without entries are gone')
    for i, kept in want:
        x = env.mpf('0.%d1234' % (i + 1))
        env.check(bool(x in got), 'keys with entries are kept')
        g = got[x]
        env.check(len(g) == len(kept), 'exactly the rejected entries are removed')
        for e, w in zip(g, kept):
            env.check_same(e, w, 'the other entries are kept')
    env.check('parameters' in got, 'the parameters are kept')
    env.check_same(got.accuracy, 5, 'accuracy')
    env.check_same(r.target_name, 'e', 'settings')
