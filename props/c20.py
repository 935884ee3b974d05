"""C20: refinement."""
from fractions import Fraction
from .c18 import FN, function, digits_equal
ID = 'C20'
ASSUMPTIONS = ['left-hand sides are finite (the enumerations yield no others); the working precision exceeds the compared digits']
BOUNDS = {'quick': 'arbitrary symbolic real fractions and left-hand sides in [-99,99], accuracies 1..15, functions x, 1/x, x^2, 1/x^2, sqrt, '
                   '1/sqrt, sin and an arbitrary one, integer parts kept or ignored, both left-hand-side kinds, up to 3 clicks per list, both refinement entry '
                   'points (the iterating one with fractions of 2 levels)',
          'thorough': 'as quick with lists of 4 and all accuracies'}


H = Fraction(1, 2)
T = Fraction(10 ** 15 - 1, 10 ** 15)


def cases(tier):
    th = tier != 'quick'
    out = []
    for trunc in (True, False):
        for n in (1, 2, 5, 15) + ((3, 4, 8, 30) if th else ()):
            for lhs in ('ulcd', 'rat'):
                out.append(dict(kind='one', trunc=trunc, n=n, f=0, lhs=lhs))
        for f in (1, 2, 3, 10, 11, 12, 'any', 'nan', 'inf'):
            out.append(dict(kind='one', trunc=trunc, n=3, f=f, lhs='ulcd' if f in (1, 3, 11, 'any') else 'rat'))
        out.append(dict(kind='params', trunc=trunc, n=3, f=0, lhs='ulcd'))
        out.append(dict(kind='params', trunc=trunc, n=3, f=0, lhs='rat'))
        for k in (0, 2, 3) + ((4,) if th else ()):
            out.append(dict(kind='list', trunc=trunc, n=2, f=0, lhs='ulcd', k=k))
        out.append(dict(kind='list', trunc=trunc, n=2, f=0, lhs='rat', k=2))
        for f in (0, 1):
            out.append(dict(kind='undef', trunc=trunc, n=2, f=f, lhs='ulcd'))
        for info in (0, 1, 2):
            out.append(dict(kind='conv', trunc=trunc, n=2, f=0, lhs='ulcd', info=info))
        out.append(dict(kind='print', trunc=trunc, n=2, f=0, lhs='ulcd'))
        out.append(dict(kind='twice', trunc=trunc, n=2, f=0, lhs='rat'))
    for c in out:
        if c['kind'] == 'one' and type(c['f']) is int and c['f']:
            c['_opts'] = dict(tables=True)
    return out


def frac(env, x):
    return x - env.floor(x)


def agree(env, r, l, n, trunc):
    r, l = env.abs(r), env.abs(l)
    if trunc:
        r, l = frac(env, r), frac(env, l)
        return bool(env.same(env.floor(r * 10 ** n), env.floor(l * 10 ** n)))
    return digits_equal(env, r, l, n)


def verify(env, kept, r, old, n, trunc, label):
    """kept: the result tuple; r: post-processed fraction"""
    v = kept[1].get_val()
    k = n if trunc else n - (1 if bool(env.abs(r) >= 10) else 0)
    env.check(env.And((v - r) * 10 ** k < 1, (r - v) * 10 ** k < 1), label + ': an identity to n decimals')
    for t in ((-1, 1) if bool(old > 0) != bool(r > 0) else (1, -1)):
        if bool(env.same(env.floor(v - t * old + H), v - t * old)):
            return
    env.fail(label + ': changed by more than sign and integer')


def value_of_params(env, o, x):
    p = o.get_params()
    if len(p) == 4:
        u, l, c, d = p
        return (u / x + x / l + c) / d

    def ev(q):
        t = 0
        for c in reversed(list(q)):
            t = t * x + c
        return t
    return ev(p[0]) / ev(p[1]) + p[2]


def run(env, kind, trunc, n, f, lhs, k=1, info=0):
    ep, le = env.mod('enum_params'), env.mod('lhs_evaluators')
    box = []
    m = ep.MITM(target_generator=lambda: box[0] if box else env.mpf('3.25'), trunc_integer=trunc, hashtable_prec=n, prec=60)

    def L(x, p=None):
        if lhs == 'ulcd':
            return le.ULCDEvaluator(p or (0, 1, 0, 1), x)
        return le.RationalFuncEvaluator(p or ([0, 1], [1], 0), x)

    def real(name, I=9 if trunc else 99):
        """+-(i + (a + t)/10**n): every real up to the bound except a sliver below the multiples of 10**-n"""
        i, a, t = env.int(name + 'i', 0, I), env.int(name + 'a', 0, 10 ** n - 1), env.real(name + 't', 1 - T, T)
        v = (env.mpf(0) + a + t) / 10 ** n + i
        if name[0] == 'x':
            env.assume(v != 0)
        return -v if (name[0] == 'x' or kind != 'list') and env.flag(name + 'neg') else v

    def coarse(name):
        if f == 10 and trunc:
            v = env.int(name, 0, 20)
            return -env.mpf(v * v) / 49 if env.flag(name + 'neg') else env.mpf(v * v) / 49
        return env.mpf(env.int(name, -20, 20)) / 7

    if kind in ('one', 'list', 'print', 'twice', 'params'):
        rs = [(coarse if f and f in FN or f in (1, 3, 11, 12) else real)('r%d' % i) for i in range(k)]
        if kind == 'params':
            x = env.mpf('3.25')
            c = env.int('c', -3, 3)
            xs = [x]
            ls = [L(x, (1, 2, c, -1) if lhs == 'ulcd' else ([c, 1], [3, 0, 2], 1))]
        else:
            xs = [real('x%d' % i) for i in range(k)]
            ls = [L(x) for x in xs]
        any_ = []
        if f in ('any', 'nan', 'inf'):
            any_ = [env.mpf(f)] if f != 'any' else rs
            rs = [env.mpf('1.5')]
            m.postproc_funcs, f = [None, lambda v: any_[0]], 1
        olds = [l.get_val() for l in ls]
        click = []
        for i in range(k):
            ab = (((rs[i],),), ((1, i),))
            click.append((ab, ls[i], f, (None, ('exp', (i, 2)))[i % 2]))
        m.filtered_params = list(click)
        m.refine_clicks_with_const_num_of_iters(n, 1, kind == 'print')
        got = m.get_filtered_params()
        j = 0
        for i in range(k):
            if any_:
                w = None if env.is_nan(any_[0]) or env.is_inf(any_[0]) else any_[0]
            elif f == 12:
                w = env.fn('sin')(rs[i])
            else:
                w = None if rs[i] == 0 and f % 2 else function(env, f, rs[i])
            want = w is not None and not bool(w == 0) and agree(env, w, olds[i], n, trunc)
            if not want:
                env.check(all(g[1] is not ls[i] for g in got), 'a disagreeing click is dropped')
                continue
            env.check(len(got) > j and got[j][1] is ls[i], 'an agreeing click is kept in order')
            g = got[j]
            j += 1
            env.check_same(g[0], click[i][0], 'polynomials unchanged')
            env.check_same(list(g[2:]), list(click[i][2:]), 'function and convergence data unchanged')
            verify(env, g, w, olds[i], n, trunc, 'kept')
            env.check_same(value_of_params(env, g[1], xs[i]), g[1].get_val(), 'parameters agree with the value')
        env.check_same(len(got), j, 'nothing else is kept')
        env.obs('kept', j)
        if kind == 'twice':
            vals = [g[1].get_val() for g in got]
            m.refine_clicks_with_const_num_of_iters(n, 1)
            again = m.get_filtered_params()
            env.check_same(len(again), len(got), 'refining again keeps the results')
            for g, w in zip(again, vals):
                if trunc:
                    env.check_same(env.floor(g[1].get_val() - w + H), g[1].get_val() - w, 'refining again')
                    env.check(env.And(g[1].get_val() - w < 1, w - g[1].get_val() < 1), 'refining again changes nothing')
    elif kind == 'undef':
        # a division by zero in the fraction, in front of a click which is kept
        u = env.int('u', -1, 1)
        x = real('x')
        box.append(x)
        good, bad = L(x), L(x)
        m.filtered_params = [((((5,), (u,)), ((2,),)), bad, f, None), ((((x,), (1,)), ((0,),)), good, 0, None)]
        old = x
        m.refine_clicks_with_const_num_of_iters(n, 2)
        got = m.get_filtered_params()
        tail = [g for g in got if g[1] is good]
        env.check_same(len(tail), 0 if bool(x == 0) else 1, 'the others are unaffected')
        first = [g for g in got if g[1] is bad]
        if bool(u == 0):
            env.check_same(len(first), 0, 'undefined fractions are dropped')
        else:
            w = env.mpf(5) + 2 / (env.mpf(0) + u)
            w = 1 / w if f else w
            if agree(env, w, old, n, trunc):
                env.check_same(len(first), 1, 'kept')
                verify(env, first[0], w, old, n, trunc, 'kept')
            else:
                env.check_same(len(first), 0, 'dropped')
    elif kind == 'conv':
        cf = env.mod('cont_fracs')
        s, t = env.int('s', -3, 3), env.int('t', 1, 3)
        x = real('x')
        box.append(x)
        l = L(x)
        ci = (None, ('exp', (env.mpf(2), env.mpf(1))), ('fast', (0, 0)))[info]
        pa, pb = ((s,), (2,)), ((t,),)
        m.filtered_params = [((pa, pb), l, f, ci)]
        m.refine_clicks_with_convergence_info(n, 2)
        c = cf.ContFrac(a_coeffs=pa, b_coeffs=pb)
        if ci:
            c.set_approach_type_and_params(ci)
        c.gen_iterations(2, env.mpf('1e-%d' % (n + 100)))
        w = c.get_result()
        P, Q = c.get_p_q()
        got = m.get_filtered_params()
        if not bool(Q == 0) and not env.is_nan(w) and not env.is_inf(w) and not bool(w == 0) and agree(env, w, x, n, trunc):
            env.check_same(len(got), 1, 'kept')
            env.check_same([got[0][0], got[0][2], got[0][3]], [(pa, pb), f, ci], 'unchanged')
            verify(env, got[0], w, x, n, trunc, 'kept')
        else:
            env.check_same(len(got), 0, 'dropped')
