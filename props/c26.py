"""C26: exported equations, read as mathematics, are the results they are made from."""
from props.common import term
from props.c24 import FUNCS
ID = 'C26'
ASSUMPTIONS = ['rational left-hand sides are not constant functions (the search never reports those)',
               'the ellipsis stands for an arbitrary number (the tail of the continued fraction)',
               'the run that only guards against vanishing numerators is cut after 3 iterations (its value is not exported)']
BOUNDS = {'quick': 'ULCD: all four parameters symbolic integers (unbounded); rational functions of degree <= 2 with up to 3 symbolic coefficients '
                   'and a symbolic added integer; continued fractions of depth 1..5 (default 5) with symbolic coefficients in plain and interlaced '
                   'polynomials; each of the 24 functions; the constants as a symbolic real in [1/8, 8] under each name in use',
          'thorough': 'as quick with more symbolic coefficients per rational function'}
NAMES = {'pi': ('\\pi',), 'phi': ('\\varphi', '\\phi'), 'e': ('e',), 'zeta': ('zeta', '\\zeta'), 'feig, 0': ('feig, 0',),
         'apery': ('apery',), 'euler_masch': ('euler_masch',), 'percolation, 1': ('percolation, 1',)}
POWER = {'lambda x: x': 1, 'lambda x: x**2': 2, 'lambda x: x**3': 3, 'lambda x: x**4': 4, 'lambda x: x**5': 5}


def tup(p):
    return tuple(tup(x) for x in p) if isinstance(p, (list, tuple)) else p


def cases(tier):
    th = tier != 'quick'
    out = []
    for name in NAMES:
        out.append(dict(kind='ulcd', name=name, free=2 if name != 'pi' else 4))
    for n, d, k in ((1, 2, 0), (2, 1, 0), (2, 1, 1), (2, 2, 0), (3, 1, 2), (3, 2, 0), (3, 3, 0), (1, 3, 1), (2, 3, 0)):
        for s in range(3 if th or n + d < 5 else 2):
            out.append(dict(kind='rat', n=n, d=d, s=s, name='pi' if (n + d) % 2 else 'feig, 0', extra=k))
    out.append(dict(kind='powers', name='e', n=13))
    for f in range(24):
        out.append(dict(kind='func', f=f))
    for depth in (1, 2, 3, 5):
        for shape in range(4):
            out.append(dict(kind='frac', depth=depth, shape=shape))
    for n in (1, 2, 3, 4, 6):
        out.append(dict(kind='list', n=n))
    out += [dict(kind='many', k=k) for k in (0, 1, 2)]
    return out


class Tex:
    """reads the LaTeX of an equation side as a fraction (numerator, denominator) over the given values"""
    def __init__(self, env, s, names, x, dots, fun):
        self.env, self.s, self.i, self.names, self.x, self.dots, self.fun = env, s, 0, names, x, dots, fun

    def bad(self, why):
        raise ValueError('not readable as mathematics: %s at %d of %r' % (why, self.i, self.s))

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in ' \n\t&':
            self.i += 1
        for t in ('\\,', '\\;', '\\!', '\\ '):
            if self.s.startswith(t, self.i):
                self.i += 2
                return self.ws()

    def at(self, *ts):
        self.ws()
        for t in ts:
            if self.s.startswith(t, self.i):
                return t
        return None

    def eat(self, *ts):
        t = self.at(*ts)
        if t is not None:
            self.i += len(t)
        return t

    def need(self, *ts):
        if self.eat(*ts) is None:
            self.bad('%s expected' % (ts,))

    def whole(self):
        v = self.expr()
        self.ws()
        if self.i != len(self.s):
            self.bad('end expected')
        return v

    def expr(self):
        acc = None
        while True:
            sign, any_ = 1, False
            while True:
                t = self.eat('+', '-')
                if t is None:
                    break
                any_ = True
                if t == '-':
                    sign = -sign
            if acc is not None and not any_:
                return acc
            n, d = self.term()
            n = n * sign
            acc = (n, d) if acc is None else (acc[0] * d + n * acc[1], acc[1] * d)

    def starts(self):
        self.ws()
        if self.i >= len(self.s):
            return False
        c = self.s[self.i]
        return c.isdigit() or ord(c) >= 0xF0000 or self.at('\\frac', '\\left(', '(', '{', '\\sqrt', '\\dots', '\\ldots', '\\cdots',
                                                            *(('\\sin', '\\cos', '\\tan', '\\cot', '\\exp', '\\ln', '\\log') + tuple(self.names))) is not None

    def term(self):
        num = self.numeric()
        n, d = self.factor()
        while True:
            if self.eat('\\cdot', '\\times', '*'):
                num = False
                s = 1
                while True:
                    t = self.eat('+', '-')
                    if t is None:
                        break
                    if t == '-':
                        s = -s
                m, e = self.factor()
                n, d = n * m * s, d * e
            elif self.starts():
                if self.numeric():
                    self.bad('a number follows a factor')
                m, e = self.factor()
                n, d = n * m, d * e
            else:
                return n, d

    def numeric(self):
        self.ws()
        return self.i < len(self.s) and (self.s[self.i].isdigit() or ord(self.s[self.i]) >= 0xF0000)

    def number(self):
        j = self.i
        while j < len(self.s) and (self.s[j].isdigit() or ord(self.s[j]) >= 0xF0000):
            j += 1
        v = self.env.number(self.s[self.i:j])
        if v is None:
            self.bad('number')
        self.i = j
        return v

    def group(self):
        self.need('{')
        v = self.expr()
        self.need('}')
        return v

    def factor(self):
        n, d = self.base()
        if self.eat('^'):
            self.ws()
            if self.at('{'):
                m, e = self.group()
                if not (isinstance(e, int) and e == 1):
                    self.bad('exponent')
            elif self.numeric():
                m = self.env.number(self.s[self.i])
                self.i += 1
            else:
                self.bad('exponent')
            m = self.env.conc(m)
            n, d = (n ** m, d ** m) if m >= 0 else (d ** -m, n ** -m)
        return n, d

    def base(self):
        if self.numeric():
            return self.number(), 1
        if self.eat('\\dots', '\\ldots', '\\cdots'):
            return self.dots, 1
        if self.eat('\\frac'):
            (a, b), (c, e) = self.group(), self.group()
            return a * e, b * c
        if self.eat('\\left('):
            v = self.expr()
            self.need('\\right)')
            return v
        if self.eat('('):
            v = self.expr()
            self.need(')')
            return v
        if self.at('{'):
            return self.group()
        if self.eat('\\sqrt'):
            return self.fun('sqrt', self.group())
        for f in ('sin', 'cos', 'tan', 'cot', 'exp', 'ln', 'log'):
            if self.eat('\\' + f):
                return self.fun('ln' if f == 'log' else f, self.base())
        for nm in sorted(self.names, key=len, reverse=True):
            if self.eat(nm):
                return self.x, 1
        self.bad('factor expected')


def frac(a, b, t):
    """a_0 + b_1/(a_1 + ... /(a_last + t)) as (N, D)"""
    N, D = a[-1] + t, 1
    for k in range(len(a) - 2, -1, -1):
        N, D = a[k] * N + b[k + 1] * D, N
    return N, D


def eqv(env, p, q):
    """equality of two fractions wherever both denominators are nonzero"""
    return env.same(p[0] * q[1], q[0] * p[1])


def check_eqn(env, eqn, names, x, lhs, fname, cf, t):
    """eqn states lhs = fname(cf)"""
    F = env.real('F', 0, None)              # the value of the transcendental function or root at cf
    env.assume(F > 0)
    at = []

    def fun(f, arg):
        at.append((f, arg))
        return F, 1
    parts = eqn.split('=')
    env.check(len(parts) == 2, 'one equals sign')
    L = Tex(env, parts[0], names, x, t, None).whole()
    R = Tex(env, parts[1], names, x, t, fun).whole()
    inverse = fname == 'safe_inverse' or fname.startswith('lambda x: safe_inverse(')
    core = 'lambda x: x' if fname == 'safe_inverse' else fname[len('lambda x: safe_inverse('):-1] if inverse else fname
    inv = (lambda p: (p[1], p[0])) if inverse else (lambda p: p)
    k = None
    if core == 'lambda x: x' or core.startswith('lambda x: x**') or core.startswith('x**'):
        k = int(core[core.index('**') + 2:]) if '**' in core else 1
        env.check(not at, 'no function on the right')
        want = inv((cf[0] ** k, cf[1] ** k))
        env.check(eqv(env, L, lhs), 'left side is the left-hand side of the result')
        env.check(eqv(env, R, want), 'right side is the function of the continued fraction')
        return
    core = core.replace('lambda x: ', '').replace('dec_', '').replace('safe_', '').replace('(x)', '')
    if core == 'sqrt' and not at:
        env.check(eqv(env, L, (lhs[0] ** 2, lhs[1] ** 2)), 'left side is the squared left-hand side')
        env.check(eqv(env, R, inv(cf)), 'right side is the continued fraction')
        return
    env.check(len(at) == 1, 'one function on the right')
    env.check_same(at[0][0], core, 'the function')
    env.check(eqv(env, at[0][1], cf), 'the argument is the continued fraction')
    env.check(eqv(env, L, lhs), 'left side is the left-hand side of the result')
    env.check(eqv(env, R, inv((F, 1))), 'right side is the function value')


def run(env, kind, name='pi', free=0, n=0, d=0, s=0, extra=0, f=0, depth=5, shape=0, k=0):
    env.lib('mpmath').mp.dps = 30
    if kind == 'list':
        a = [env.int('a%d' % i, 0) if i < 3 else 4 + i for i in range(n)]
        b = [env.int('b%d' % i, 0) if 0 < i < 3 else -3 - i for i in range(n)]
        t = env.real('t', 0, 5)
        s_ = env.mod('latex').latex_cont_frac(a, b)
        R = Tex(env, s_, ('none',), 0, t, None).whole()
        env.check(eqv(env, R, frac(a, b, t)), 'the fraction')
        return
    cfm = env.mod('cont_fracs')
    ep = env.mod('enum_params')
    le = env.mod('lhs_evaluators')
    orig = cfm.ContFrac.gen_iterations
    cfm.ContFrac.gen_iterations = lambda self, num, *a, **kw: orig(self, min(num, 3), *a, **kw)
    x = env.real('x', 0.125, 8)
    t = env.real('t', 0, 5)
    names = NAMES[name]
    m = ep.MITM(target_generator=lambda: x, target_name=name, postproc_funcs=[lambda v: v] * 24)      # values are not exported here
    a, b = [[4, 1]], [[3, 0, 2]]
    fi = 0
    results = []
    if kind == 'ulcd':
        v = [7, -3, 2, 5]
        for i in range(4):
            if free == 4 or i in (1, 3):
                v[i] = env.int('ulcd'[i])
        u, l, c, dd = v
        env.assume(l != 0)
        env.assume(dd != 0)
        lhs = le.ULCDEvaluator((u, l, c, dd), x)
        L = (u * l + x * x + c * x * l, x * l * dd)
        results = [(lhs, L)]
    elif kind in ('rat', 'powers'):
        if kind == 'powers':
            p = [0] * n
            p[-1] = env.int('c0')
            p[2] = 1
            p[11] = -1
            q, add = [1], 0
            env.assume(p[-1] != 0)
        else:
            p = [3, -5, 2][:n]
            q = [2, 4, -7][:d]
            free = [('p', n - 1), ('q', d - 1)] if s == 0 else [('p', 0), ('q', d - 1)] if s == 1 else [('p', n - 1), ('p', 0)]
            if s == 1 and d > 1:
                free = [('q', 0), ('p', 0)]
            for w, i in free:
                (p if w == 'p' else q)[i] = env.int('%s%d' % (w, i), -4, 4)
            add = env.int('k', -3, 3) if extra else 0
        env.assume(env.Or(*[c != 0 for c in p]))
        env.assume(env.Or(*[c != 0 for c in q]))
        add = env.conc(add)
        K = max(len(p), len(q))
        P, Q = p + [0] * (K - len(p)), q + [0] * (K - len(q))
        env.assume(env.Or(*[P[i] * Q[j] != P[j] * Q[i] for i in range(K) for j in range(i)]))       # not a constant function
        N, D = sum(c * x ** i for i, c in enumerate(p)), sum(c * x ** i for i, c in enumerate(q))
        env.assume(N != 0)
        env.assume(D != 0)
        lhs = le.RationalFuncEvaluator((tuple(p), tuple(q), add), x)
        results = [(lhs, (N + add * D, D))]
    elif kind == 'func':
        fi = f
        a, b = [[env.int('a0', 1), 2]], [[3, env.int('b1', 0)]]
        results = [(le.ULCDEvaluator((2, 3, -1, 4), x), (2 * 3 + x * x - x * 3, x * 3 * 4))]
    elif kind == 'frac':
        if shape == 0:
            a, b = [[env.int('a0'), env.int('a1', 0)]], [[env.int('b0', 1), env.int('b1', 0)]]
            env.assume(a[0][0] + 3 * a[0][1] > 0)
            if depth > 2:
                a[0][0] = 1
        elif shape == 1:
            a, b = [[2, env.int('a01', 0)], [env.int('a10')]], [[5, 1]]
        elif shape == 2:
            a, b = [[2, 1]], [[env.int('b00', 1)], [3, 1], [env.int('b20', 1), 0, 2]]
        else:
            a, b = [[1], [-2, 3], [7]], [[4], [-1, env.int('b11')]]
            env.assume(b[1][1] > 1)
        results = [(le.ULCDEvaluator((0, 1, 0, 1), x), (x, 1))]
    else:
        a, b = [[1, 2]], [[3]]
        for i in range(k):
            c = env.int('c%d' % i, 1)
            results.append((le.ULCDEvaluator((0, 1, c, 1), x), (x + c, 1)))
    a, b = [tuple(tuple(q) for q in p) for p in (a, b)]
    m.filtered_params = [((tup(a), tup(b)), o, fi, ('exp', 1)) for o, _ in results]
    if depth == 5:
        eqns = m.get_results_as_eqns(list(FUNCS))
    else:
        eqns = m.get_results_as_eqns(list(FUNCS), depth=depth)
    env.check_same(len(eqns), len(results), 'one equation per result')
    av, bv = [term(a, i) for i in range(depth)], [term(b, i) for i in range(depth)]
    cf = frac(av, bv, t)
    for e, (o, L) in zip(eqns, results):
        check_eqn(env, e, names, x, L, FUNCS[fi], cf, t)
