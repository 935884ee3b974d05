"""C19: click search."""
from props.common import same_bag
from .c18 import digits_equal, key
ID = 'C19'
ASSUMPTIONS = ['the enumerations yield the left-hand sides of their ranges (C09) and the table finds entries by their digits (C16)']
BOUNDS = {'quick': 'tables of up to 2 symbolic real keys with up to 2 entries each (integer parts kept: keys below 100); up to 3 left-hand '
                   'sides with arbitrary symbolic real values and degeneracy; real ULCD enumerations of up to 6 and rational enumerations '
                   'of up to 4 left-hand sides with symbolic integer ranges in [-3,3] at a concrete or symbolic target',
          'thorough': 'as quick with 4 left-hand sides and ranges in [-5,5]'}


def cases(tier):
    th = tier != 'quick'
    B = 5 if th else 3
    out = []
    for n in (1, 3, 15):
        for trunc in (True, False):
            for k in (0, 1, 2) + ((3,) if th else ()):
                out.append(dict(kind='fake', n=n, trunc=trunc, k=k, keys=2 if k < 2 else 1))
    out.append(dict(kind='fake', n=2, trunc=True, k=3, keys=1))
    for trunc in (True, False):
        for sym in (0, 1):
            out.append(dict(kind='ulcd', n=3, trunc=trunc, sym=sym, B=B))
        out.append(dict(kind='ulcdlen', n=3, trunc=trunc, B=B))
        for v in range(4):
            out.append(dict(kind='rat', n=3, trunc=trunc, v=v, B=B))
    out += [dict(kind='history', n=3, trunc=True), dict(kind='again', n=3, trunc=True), dict(kind='build', n=3, trunc=True, B=B),
            dict(kind='build', n=3, trunc=False, B=B)]
    for c in out:
        c['_opts'] = dict(tables=True)
    return out


AB = [((((1, 2),), ((3, 1),)), 0), ((((5,),), ((1, 0, 1),)), 1), ((((1,), (2,)), ((7, 1),)), 10), ((((1, 2),), ((3, 1),)), 2)]


def table(env, m, ks):
    ent = []
    for i, k in enumerate(ks):
        es = [AB[2 * i], AB[2 * i + 1]] if i == 0 else [AB[2 * i]]
        for e in es:
            m.dec_hashtable.setdefault(k, []).append(e)
            ent.append((e, k))
    return ent


def expected(env, ent, n, trunc, lhs):
    """lhs: (description, value or None); the results in any order"""
    out = []
    for d, v in lhs:
        if v is None:
            continue
        r = key(env, v, trunc)
        for e, k in ent:
            if digits_equal(env, r, k, n):
                out.append((d, e))
    return out


def check(env, m, exp, cls, label):
    got = m.get_filtered_params()
    for g in got:
        env.check(type(g) is tuple and len(g) == 4 and type(g[1]) is cls and g[3] is None, label + ': structure')
    ids = [id(g[1]) for g in got]
    env.check(len(set(ids)) == len(ids), label + ': every result has its own left-hand side')
    same_bag(env, [[desc(g[1]), [g[0][0], g[0][1], g[2]]] for g in got],
             [[d, [e[0][0], e[0][1], e[1]]] for d, e in exp], label)


def desc(o):
    p = o.get_params()
    return [list(x) if isinstance(x, (list, tuple)) else x for x in p] if isinstance(p, tuple) else p


def run(env, kind, n, trunc, k=0, keys=1, sym=0, B=3, v=0):
    ep, le, dh = env.mod('enum_params'), env.mod('lhs_evaluators'), env.mod('decimal_hashtable')
    x = env.mpf('3.25')
    if kind == 'ulcd' and sym:
        x = env.real('x', 1, 9)
    m = ep.MITM(target_generator=lambda: x, trunc_integer=trunc, hashtable_prec=n, prec=60)

    def rkey(name):
        hi = 1 if trunc else 100
        r = env.real(name, 0, hi)
        env.assume(r < hi)
        return r
    ks = [rkey('k%d' % i) for i in range(keys)]
    if kind in ('fake', 'history', 'again'):
        vals = [env.real('v%d' % i, -99, 99) for i in range(k or 1)] if kind != 'fake' else \
            [env.real('v%d' % i, -99, 99) for i in range(k)]
        deg = [env.flag('d%d' % i) if i == 0 else False for i in range(len(vals))]

        class Ev(le.LHSEvaluator):
            def reinit_params(self, params):
                self.params = params
                self.val = vals[params[0]]

            def is_degenerate(self):
                return deg[self.params[0]]

        class En(le.LHSEnumerator):
            def __init__(self, params, target):
                self.p, self.t = params, target
                self._iter_len = len(params)

            def generator(self):
                o = Ev(((self.p or [0])[0],), self.t) if self.p else None
                for i in self.p:
                    o.reinit_params((i,))       # one object, as the ULCD enumeration does
                    yield o
        lhs = [([i], None if deg[i] else w) for i, w in enumerate(vals)]
        if kind == 'fake':
            ent = table(env, m, ks)
            if n == 3:
                m.dec_hashtable['parameters'] = {'x': 1}
            m.find_clicks({'enum': En, 'eval': Ev}, list(range(k)))
            check(env, m, expected(env, ent, n, trunc, lhs), Ev, 'clicks')
            env.check_same(len(list(m.dec_hashtable.keys())) > 0, True, 'table kept')
            for e, q in ent:
                env.check(any(bool(env.same(list(e), list(g))) for g in m.dec_hashtable[q]), 'table unchanged')
            for g in m.get_filtered_params():
                env.check_same(g[1].get_val(), vals[g[1].get_params()[0]], 'value of the copy')
                env.check_same(g[1].get_target_const(), x, 'constant of the copy')
        elif kind == 'history':
            # an entry of an earlier accuracy is found by its own digits
            m.dec_hashtable = dh.DecimalHashTable(5)
            y = rkey('y')
            m.dec_hashtable[y] = [AB[3]]
            m.dec_hashtable.update_accuracy(n)
            m.find_clicks({'enum': En, 'eval': Ev}, [0])
            w = key(env, vals[0], trunc)
            hit = not deg[0] and digits_equal(env, w, y, 5)
            check(env, m, [([0], AB[3])] if hit else [], Ev, 'clicks at an earlier accuracy')
        else:
            ent = table(env, m, ks)
            m.filtered_params = [('stale',)]
            m.find_clicks({'enum': En, 'eval': Ev}, [0])
            first = m.get_filtered_params()
            m.find_clicks({'enum': En, 'eval': Ev}, [0, 0])
            one = expected(env, ent, n, trunc, lhs)
            check(env, m, one + one, Ev, 'a second search replaces the results')
            env.check_same(len(first), len(one), 'first search')
            m.find_clicks({'enum': En, 'eval': Ev}, [])
            env.check_same(len(m.get_filtered_params()), 0, 'an empty range')
        return
    I = lambda name: env.int(name, -B, B)
    ent = table(env, m, ks)
    if kind == 'ulcd':
        if sym:
            c, d = I('c'), env.int('d', 1, 3)
            ranges = ([0, 1], [1, 2], [c, c + 1], [d, d + 2])
            combos = [(0, 1, c, d + i) for i in range(2)]
        else:
            u, l, c = I('u'), env.int('l', -1, 1), env.int('c', -1, 1)
            ranges = ([u, u + 2], [l, l + 2], [c, c + 1], [2, 3])
            combos = [(u + i, l + j, c, 2) for i in range(2) for j in range(2)]
        lhs = []
        for p in combos:
            if p[1] == 0 or p[3] == 0 or env.abs(p[2]) >= env.abs(p[3]):
                continue
            # 1/x - x may be called degenerate (it is constant for the golden ratio); nothing else
            if env.And(env.Or(p[0] == 1, p[0] == -1), p[0] == -p[1]) and le.ULCDEvaluator(p, x).is_degenerate():
                continue
            lhs.append((list(p), (p[0] / x + x / p[1] + p[2]) / p[3]))
        m.find_clicks(le.LHS_TYPES['ulcd'], ranges)
        check(env, m, expected(env, ent, n, trunc, lhs), le.ULCDEvaluator, 'clicks')
        for g in m.get_filtered_params():
            p = g[1].get_params()
            env.check_same(g[1].get_val(), (p[0] / x + x / p[1] + p[2]) / p[3], 'value of the copy')
    elif kind == 'ulcdlen':
        m.find_clicks(le.LHS_TYPES['ulcd'], (0, 1, 0, 2))
        lhs = [([0, l, 0, d], x / (l * d)) for l in (-1, 1) for d in (1, 2)]
        check(env, m, expected(env, ent, n, trunc, lhs), le.ULCDEvaluator, 'clicks')
    elif kind == 'rat':
        force = False
        if v == 0:
            c = I('c')
            num, den = [[c, c + 2], [1, 2]], [[2, 3]]
            lhs = [([[c + i, 1], [2]], (c + i + x) / 2) for i in range(2)]
        elif v == 1:
            # 4x - 13 vanishes at the target: neither a numerator nor a denominator
            num, den = [[-13, -12], [4, 6]], [[1, 2]]
            lhs = [([[-13, 5], [1]], 5 * x - 13)]
        elif v == 2:
            c = I('c')
            num, den = [[1, 2], [0, 1]], [[c, c + 2], [4, 5]]
            lhs = [([[1, 0], [c + i, 4]], 1 / (c + i + 4 * x)) for i in range(2)]
        else:
            # degenerate: (c + 2x)/(2 + 4x) is constant for c = 1
            c = I('c')
            num, den, force = [[c, c + 1], [2, 3]], [[2, 3], [4, 5]], env.flag('force')
            lhs = [([[c, 2], [2, 4]], None if bool(c == 1) else (c + 2 * x) / (2 + 4 * x))]
        if v == 2:
            lhs = [(d, w) for d, w in lhs if not bool(w == 0)]
        if v == 0:
            lhs = [(d, w) for d, w in lhs if not bool(w == 0)]
        if v == 3:
            lhs = [(d, w) for d, w in lhs if w is None or not bool(w == 0)]
        lhs2 = lhs
        m.find_clicks(le.LHS_TYPES['rationalfunc'], (num, den, force))
        exp = expected(env, ent, n, trunc, lhs2)
        got = m.get_filtered_params()
        env.check_same(len(got), len(exp), 'number of clicks')
        for g in got:
            p = g[1].get_params()
            num_, den_ = list(p[0]), list(p[1])
            w = ev(num_, x) / ev(den_, x) + p[2]
            env.check_same(w, g[1].get_val(), 'the copy carries its own parameters')
            env.check(type(g[1]) is le.RationalFuncEvaluator and g[3] is None, 'structure')
        same_bag(env, [[g[1].get_val(), [g[0][0], g[0][1], g[2]]] for g in got],
                 [[[w for d2, w in lhs2 if d2 is d][0], [e[0][0], e[0][1], e[1]]] for d, e in exp], 'clicks')
    else:
        # table built by the enumeration itself
        s = I('s')
        m2 = ep.MITM(target_generator=lambda: x, trunc_integer=trunc, hashtable_prec=n, prec=60, num_of_iterations=2,
                     enum_only_exp_conv=False, postproc_funcs_filter=(0, 1))
        m2.build_hashtable([[[s, s + 1]], [[4, 5]]], [[[1, 2]]])
        val = s + env.mpf(1) / 4
        pair = (((s,), (4,)), ((1,),)) if not bool(s == 4) else (((4,),), ((1,),))
        ents = [((pair, 0), key(env, val, trunc))]
        if not bool(val == 0):
            ents.append(((pair, 1), key(env, 1 / val, trunc)))
        c = env.int('c', -1, 1)
        m2.find_clicks(le.LHS_TYPES['ulcd'], ([0, 1], [1, 3], [c, c + 1], [2, 3]))
        lhs = [([0, l, c, 2], (x / l + c) / 2) for l in (1, 2)]
        check(env, m2, expected(env, ents, n, trunc, lhs), le.ULCDEvaluator, 'clicks')


def ev(p, x):
    r = 0
    for c in reversed(p):
        r = r * x + c
    return r
