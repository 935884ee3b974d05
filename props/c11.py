"""C11: rational left-hand sides."""
from props.common import peval, polys
ID = 'C11'
ASSUMPTIONS = ['the denominator polynomial is not the zero polynomial where reduction is requested (the enumerated set)']
BOUNDS = {'quick': 'values and edits: numerators and denominators with up to 3 unbounded symbolic coefficients, any constant, every '
                   'sequence of 3 edits; reduction and degeneracy: degrees up to (2, 1) and (1, 2) with up to 4 symbolic coefficients '
                   'of at most 3 in absolute value (2 for linear over linear), or products with a common linear factor',
          'thorough': 'as quick with 4 edits and coefficients up to 6'}
OPS = ('flip', 'add', 'reinit', 'copy', 'other', 'pickle')


def cases(tier):
    th = tier != 'quick'
    L = 4 if th else 3
    out = []
    for n, d in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (5, 4)):
        out.append(dict(kind='value', n=n, d=d))
    for o1 in OPS:
        for o2 in OPS:
            out.append(dict(kind='hist', first=[o1, o2], L=L))
    out += [dict(kind='zero', n=n, d=d) for n, d in ((1, 2), (2, 1), (2, 2))]
    out += [dict(kind='type'), dict(kind='list')]
    B = 6 if th else 3
    for n, d in ((1, 1), (2, 1), (1, 2), (3, 1), (1, 3)):
        out.append(dict(kind='canon', n=n, d=d, B=B))
    out.append(dict(kind='canon', n=2, d=2, B=3 if th else 2, cq=1, _opts=dict(weight=3)))
    for n, d in ((2, 1), (1, 2), (2, 2)):
        out.append(dict(kind='factor', n=n, d=d, B=2 if th else 1, cq=1, _opts=dict(weight=3)))
    for n, d in ((3, 2), (2, 3), (3, 3), (4, 3)):
        for pos in range(2):
            out.append(dict(kind='conc', n=n, d=d, pos=pos, B=9 if th else 3))
    out += [dict(kind='edits', s=s, B=B) for s in range(7)]
    out += [dict(kind='editdeg', s=s, B=B) for s in ('flip', 'add', 'copy', 'reinit', 'twice')]
    return out


def mul(p, q):
    r = [0] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            r[i + j] = r[i + j] + x * y
    return r


def ok(env, o, x, p, q, k, label, nan=False):
    """the object has the value p(x)/q(x)+k (or NaN) and its parameters say so"""
    P, Q = peval(p, x), peval(q, x)
    if nan:
        env.check(env.is_nan(o.get_val()), 'NaN ' + label)
        return
    env.check_same(o.get_val() * Q, P + k * Q, 'value ' + label)
    a, b, c = o.get_params()
    A, B = peval(a, x), peval(b, x)
    env.check_same((A + c * B) * Q, (P + k * Q) * B, 'parameters give the value ' + label)
    env.check(B != 0, 'parameters are usable ' + label)


def equal_functions(env, o, p, q, k, label):
    """as polynomials: (a + c b) q == (p + k q) b, and b is not zero"""
    X = env.int('X')
    a, b, c = o.get_params()
    A, B, P, Q = peval(a, X), peval(b, X), peval(p, X), peval(q, X)
    env.check_same((A + c * B) * Q, (P + k * Q) * B, label)
    env.check(env.Or(*[t != 0 for t in b]), 'denominator not zero: ' + label)


def constant(env, p, q):
    n = max(len(p), len(q))
    p, q = list(p) + [0] * (n - len(p)), list(q) + [0] * (n - len(q))
    return env.And(*[p[i] * q[j] == p[j] * q[i] for i in range(n) for j in range(i)]) if n > 1 else True


def own_value(env, o, x, label):
    """the value belongs to the object's own parameters"""
    a, b, c = o.get_params()
    A, B = peval(a, x), peval(b, x)
    v = o.get_val()
    if A == 0 or B == 0:
        env.check(env.is_nan(v), 'NaN ' + label)
    else:
        env.check(not env.is_nan(v), 'a number ' + label)
        env.check_same(v * B, A + c * B, 'value of its parameters ' + label)


def run(env, kind, n=1, d=1, first=(), L=0, B=0, pos=0, s=0, cq=0):
    le = env.mod('lhs_evaluators')
    x = env.real('x')
    R = le.RationalFuncEvaluator
    if kind in ('value', 'zero', 'list'):
        if kind == 'list':
            n = d = 2
        p, q = [polys(env, c, 1, k)[0] for c, k in (('p', n), ('q', d))]
        k = env.int('k')
        o = R((p, q, k), x)
        if kind == 'zero':
            env.assume(env.Or(peval(p, x) == 0, peval(q, x) == 0))
            o = R((p, q, k), x)
            env.check(env.is_nan(o.get_val()), 'NaN when numerator or denominator vanish')
            o.flip_sign()
            env.check(env.is_nan(o.get_val()), 'NaN after a sign flip')
            o.add_int(env.int('j'))
            env.check(env.is_nan(o.get_val()), 'NaN after adding an integer')
        elif kind == 'value':
            P, Q = peval(p, x), peval(q, x)
            if P == 0 or Q == 0:
                env.check(env.is_nan(o.get_val()), 'NaN when numerator or denominator vanish')
            else:
                ok(env, o, x, p, q, k, 'as constructed')
                env.check_same([list(t) if i < 2 else t for i, t in enumerate(o.get_params())], [p, q, k], 'parameters')
                env.obs('v', o.get_val())
        else:
            env.assume(peval(p, x) != 0)
            env.assume(peval(q, x) != 0)
            p0, q0 = list(p), list(q)
            o = R([p, q, k], x)
            o.flip_sign()
            o.add_int(2)
            f = R(o)
            f.flip_sign()
            env.check_same((p, q), (p0, q0), 'the given lists are not modified')
            ok(env, o, x, [0 - t for t in p], q, 2 - k, 'from lists')
    elif kind == 'hist':
        sets = []
        for i in range(L + 1):
            p, q, k = polys(env, 'p%d_' % i, 1, 2 if i == 0 else 1)[0], polys(env, 'q%d_' % i, 1, 1 if i % 2 == 0 else 2)[0], \
                env.int('k%d' % i)
            sets.append((p, q, k))
        p, q, k = sets[0]
        env.assume(peval(p, x) != 0)
        env.assume(peval(q, x) != 0)
        e = R((p, q, k), x)
        side = []
        for i in range(L):
            op = first[i] if i < len(first) else env.choice('op%d' % i, OPS)
            if op == 'flip':
                e.flip_sign()
                p, k = [0 - t for t in p], 0 - k
            elif op == 'add':
                j = env.int('n%d' % i)
                e.add_int(j)
                k = k + j
            elif op == 'reinit':
                p, q, k = sets[i + 1]
                env.assume(peval(p, x) != 0)
                env.assume(peval(q, x) != 0)
                e.reinit_params((p, q, k))
            elif op in ('copy', 'pickle'):
                side.append((e, p, q, k))
                e = R(e) if op == 'copy' else env.pickle(e)
            else:
                side.append((R(e), p, q, k))
            ok(env, e, x, p, q, k, 'after an operation')
            for f, p1, q1, k1 in side:
                ok(env, f, x, p1, q1, k1, 'of a copy or source after later operations')
        for f, p1, q1, k1 in side:
            f.flip_sign()
            f.add_int(1)
            ok(env, f, x, [0 - t for t in p1], q1, 1 - k1, 'of an edited copy')
        ok(env, e, x, p, q, k, 'after the copies were edited')
        env.obs('v', e.get_val())
    elif kind == 'type':
        p = [env.int('p'), 1]
        e = env.raises(R, (p, [1], env.real('y')), x)
        env.check(isinstance(e, TypeError), 'an added number that is no integer is refused')
    elif kind in ('canon', 'factor', 'conc'):
        if kind == 'conc':
            p, q = [[2, 3, -1, 5][:n], [4, -2, 3, 1][:d]]
            if pos:
                q[-1] = env.int('c', -B, B)
            else:
                p[-1] = env.int('c', -B, B)
            k = 3
        else:
            p, q = [polys(env, c, 1, m, -B, B)[0] for c, m in (('p', n), ('q', d))]
            k = env.int('k')
        env.assume(env.Or(*[t != 0 for t in q]))
        if cq:
            q = [env.conc(c) for c in q]
            if kind == 'factor' and n > 1:
                p = [p[0], 1]
                if d > 1:
                    p, q = [env.conc(p[0]), 1], [q[0], 2]
        if kind == 'factor':
            t = env.conc(env.int('t', -B, B))
            p, q = mul(p, [t, 1]), mul(q, [t, 1])
        o = R((list(p), list(q), k), x)
        const = constant(env, p, q)
        dg = o.is_degenerate()
        env.check(env.Iff(bool(dg), const), 'degenerate exactly when constant')
        equal_functions(env, o, p, q, k, 'reduction keeps the function')
        own_value(env, o, x, 'after reduction')
        o.canonalize_params()
        equal_functions(env, o, p, q, k, 'second reduction keeps the function')
        env.check(env.Iff(bool(o.is_degenerate()), const), 'degenerate exactly when constant, after reduction')
    elif kind == 'edits':
        # reduction mixed with edits
        a, b = env.int('a', -B, B), env.int('b', -B, B)
        p, q, k = [a, b, 1], [1, 2], env.int('k')
        o = R((list(p), list(q), k), x)
        j = env.int('j')
        seq = (('canon', 'flip', 'add'), ('flip', 'canon', 'flip', 'canon'), ('add', 'canon', 'copy', 'flip'),
               ('canon', 'reinit', 'canon', 'add', 'flip'), ('canon', 'look', 'reinit', 'canon'),
               ('look', 'flip', 'canon', 'look', 'add', 'canon'), ('look', 'reinit', 'look', 'flip', 'canon'))[s]
        for op in seq:
            if op == 'look':
                # as comparisons and exports do
                n, m = o.numerator_p_symbolic, o.denominator_p_symbolic
            elif op == 'canon':
                o.canonalize_params()
            elif op == 'flip':
                o.flip_sign()
                p, k = [0 - t for t in p], 0 - k
            elif op == 'add':
                o.add_int(j)
                k = k + j
            elif op == 'copy':
                old = o
                o = R(o)
                equal_functions(env, old, p, q, k, 'source of a copy')
            else:
                p, q, k = [b, 0, a, 2], [3, 1], 1
                o.reinit_params((list(p), list(q), k))
            equal_functions(env, o, p, q, k, 'function after ' + op)
            own_value(env, o, x, 'after ' + op)
    elif kind == 'editdeg':
        # constancy is recognised in whatever state the object is
        a, b, w = env.int('a', -B, B), env.int('b', -B, B), env.int('w', -B, B)
        p, q, k = [a, b], [w, 1], 3
        o = R(([7, 1], [1], 0) if s == 'reinit' else (list(p), list(q), k), x)
        if env.flag('before'):
            o.is_degenerate()
        if s == 'flip':
            o.flip_sign()
        elif s == 'add':
            o.add_int(env.int('j'))
        elif s == 'copy':
            o = R(o)
        elif s == 'reinit':
            o.reinit_params((list(p), list(q), k))
        else:
            o.flip_sign()
            o.add_int(2)
            o.flip_sign()
        env.check(env.Iff(bool(o.is_degenerate()), constant(env, p, q)), 'degenerate exactly when constant, after edits')
