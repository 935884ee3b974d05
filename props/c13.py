"""C13: rational-function enumeration."""
from props.common import peval, same_bag, product
ID = 'C13'
ASSUMPTIONS = []
BOUNDS = {'quick': 'numerators and denominators with up to 3 coefficients; ranges with symbolic lower bounds in -2..2 and widths up to 3 '
                   '(one range symbolic, the others fixed) or unbounded symbolic singletons; any constant; both settings of the '
                   'numerator option',
          'thorough': 'as quick with lower bounds in -4..4'}


def cases(tier):
    out = []
    B = 2 if tier == 'quick' else 4
    for force in (0, 1):
        for n, d in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)):
            out.append(dict(kind='single', n=n, d=d, force=force))
        for which in range(4):
            out.append(dict(kind='range', which=which, force=force, B=B))
        out.append(dict(kind='fixed', force=force))
    out.append(dict(kind='indep'))
    return out


def degree(p):
    for i in range(len(p) - 1, -1, -1):
        if p[i] != 0:
            return i
    return -1


def skipped(env, p, q, force, x):
    dp, dq = degree(p), degree(q)
    if dp < 0 or dq < 0:
        return True
    if dp == 0 and dq == 0:
        return True
    if force and dp < dq:
        return True
    if peval(p, x) == 0:
        return True
    if peval(q, x) == 0:
        return True
    return False


def check(env, le, rn, rd, force, x, ws):
    e = le.RationalFuncEnumerator([rn, rd, force], x)
    objs = list(e.generator())
    got = []
    for o in objs:
        p, q, k = o.get_params()
        env.check_same(k, 0, 'added integer is zero')
        env.check_same(o.get_val() * peval(q, x), peval(p, x), 'value')
        env.check_same(o.get_target_const(), x, 'constant')
        got.append((tuple(p), tuple(q)))
    P = product([[r[0] + i for i in range(w)] for r, w in zip(rn, ws[0])])
    Q = product([[r[0] + i for i in range(w)] for r, w in zip(rd, ws[1])])
    want = [(p, q) for p in P for q in Q if not skipped(env, p, q, force, x)]
    same_bag(env, got, want, 'each admissible pair once and nothing else')
    return objs


def run(env, kind, n=1, d=1, which=0, force=0, B=0):
    le = env.mod('lhs_evaluators')
    x = env.real('x')
    force = bool(force)
    if kind == 'single':
        p, q = [env.int('p%d' % i) for i in range(n)], [env.int('q%d' % i) for i in range(d)]
        objs = check(env, le, [[c, c + 1] for c in p], [[c, c + 1] for c in q], force, x, ([1] * n, [1] * d))
        env.obs('n', len(objs))
    elif kind == 'range':
        rs, ws = [[[1, 2], [0, 2]], [[-1, 1], [0, 1]]], [[1, 2], [2, 1]]
        lo = env.conc(env.int('lo', -B, B))
        w = env.conc(env.int('w', 0, 3))
        rs[which // 2][which % 2] = [lo, lo + w]
        ws[which // 2][which % 2] = w
        check(env, le, rs[0], rs[1], force, x, ws)
    elif kind == 'fixed':
        check(env, le, [[0, 2], [0, 1], [-1, 1]], [[0, 2], [-1, 2]], force, x, ([2, 1, 2], [2, 3]))
    else:
        # collected objects do not depend on later ones or on each other
        a = env.int('a', 1, 50)
        x = env.real('x2', 1, 100)
        e = le.RationalFuncEnumerator([[[a, a + 2], [1, 2]], [[1, 3]], False], x)
        objs = list(e.generator())
        env.check_same(len(objs), 4, 'number of functions')
        objs[1].flip_sign()
        objs[1].add_int(7)
        k = 0
        for p0 in (a, a + 1):
            for q0 in (1, 2):
                hit = [o for o in objs if bool(env.same(tuple(o.get_params()[0]), (p0, 1))) and
                       abs(o.get_params()[1][0]) == q0]
                env.check_same(len(hit), 1, 'each function is its own object')
                v = (p0 + x) / q0
                if hit[0] is objs[1]:
                    env.check_same(hit[0].get_val(), 7 - v, 'the edited object')
                    k += 1
                else:
                    env.check_same(hit[0].get_val(), v, 'the other objects are unchanged')
        env.check_same(k, 1, 'one object edited')
        env.check_same(len(list(e.generator())), 4, 'a second enumeration')
