"""C10: ULCD left-hand sides."""
ID = 'C10'
ASSUMPTIONS = ['the constant is a nonzero finite number, l and d are nonzero integers (the enumerated set)']
BOUNDS = {'quick': 'every sequence of 3 operations out of: flip the sign, add any integer, re-parametrise with any parameters, '
                   'continue with a copy (by constructor or pickle), edit a second object made from the same source; symbolic '
                   'unbounded integer u, c, added integers, nonzero l, d, any nonzero constant',
          'thorough': 'as quick with 4 operations'}
OPS = ('flip', 'add', 'reinit', 'copy', 'other', 'pickle')


def cases(tier):
    L = 3 if tier == 'quick' else 4
    out = [dict(kind='formula')]
    for o1 in OPS:
        for o2 in OPS:
            out.append(dict(kind='hist', first=[o1, o2], L=L))
    out += [dict(kind='neg'), dict(kind='shared'), dict(kind='list')]
    return out


def val(env, x, p):
    u, l, c, d = p
    return (u / x + x / l + c) / d


def params(env, k):
    u, l, c, d = [env.int('%s%d' % (s, k)) for s in 'ulcd']
    env.assume(l != 0)
    env.assume(d != 0)
    return u, l, c, d


def ok(env, o, x, want, label):
    env.check_same(o.get_val(), want, 'value ' + label)
    p = o.get_params()
    env.check(p[3] != 0 and p[1] != 0, 'usable parameters ' + label)
    env.check_same(val(env, x, p), want, 'parameters give the value ' + label)


def run(env, kind, first=(), L=0):
    le = env.mod('lhs_evaluators')
    x = env.real('x')
    env.assume(x != 0)
    p = params(env, 0)
    if kind == 'formula':
        e = le.ULCDEvaluator(p, x)
        env.check_same(e.get_val(), val(env, x, p), 'value')
        env.check_same(tuple(e.get_params()), p, 'parameters')
        env.check_same(e.get_target_const(), x, 'constant')
        env.obs('v', e.get_val())
    elif kind == 'hist':
        e = le.ULCDEvaluator(p, x)
        v = val(env, x, p)
        side = []
        for i in range(L):
            op = first[i] if i < len(first) else env.choice('op%d' % i, OPS)
            if op == 'flip':
                e.flip_sign()
                v = -v
            elif op == 'add':
                n = env.int('n%d' % i)
                e.add_int(n)
                v = v + n
            elif op == 'reinit':
                p = params(env, i + 1)
                e.reinit_params(p)
                v = val(env, x, p)
            elif op in ('copy', 'pickle'):
                side.append((e, v))
                e = le.ULCDEvaluator(e) if op == 'copy' else env.pickle(e)
            else:
                f = le.ULCDEvaluator(e)
                side.append((f, v))
            ok(env, e, x, v, 'after an operation')
            for f, w in side:
                ok(env, f, x, w, 'of a copy or source after later operations')
        for f, w in side:
            f.flip_sign()
            f.add_int(1)
            ok(env, f, x, 1 - w, 'of an edited copy')
        ok(env, e, x, v, 'after the copies were edited')
        env.obs('v', e.get_val())
    elif kind == 'neg':
        e = le.ULCDEvaluator(p, x)
        e.flip_sign()
        e.flip_sign()
        ok(env, e, x, val(env, x, p), 'after two flips')
        n = env.int('n')
        e.add_int(n)
        e.add_int(0 - n)
        ok(env, e, x, val(env, x, p), 'after adding and subtracting')
        e.canonalize_params()
        ok(env, e, x, val(env, x, p), 'after reduction to canonical form')
    elif kind == 'shared':
        # two objects with the same parameters and different constants
        y = env.real('y')
        env.assume(y != 0)
        e, f = le.ULCDEvaluator(p, x), le.ULCDEvaluator(p, y)
        e.flip_sign()
        f.add_int(2)
        ok(env, e, x, -val(env, x, p), 'of the first')
        ok(env, f, y, val(env, y, p) + 2, 'of the second')
        g = le.ULCDEvaluator(f)
        env.check_same(g.get_target_const(), y, 'constant of a copy')
    else:
        q = list(p)
        e = le.ULCDEvaluator(q, x)
        e.flip_sign()
        e.add_int(3)
        env.check_same(q, list(p), 'the given parameters are not modified')
        ok(env, e, x, 3 - val(env, x, p), 'from a list')
