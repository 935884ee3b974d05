"""C27: post-processing functions."""
from .c24 import FUNCS
ID = 'C27'
ASSUMPTIONS = ['sin, cos, exp and the logarithm of the arithmetic library are uninterpreted functions (their accuracy is not the subject)',
               'cos(x) is not exactly zero (it never is for a working-precision x)']
BOUNDS = {'quick': 'every function at every real x of either sign and at 0, NaN and the infinities; every position of the list',
          'thorough': 'as quick'}


def cases(tier):
    out = [dict(kind='fn', i=i, s=s) for i in range(len(FUNCS)) for s in ('neg', 'zero', 'pos', 'nan', 'inf')]
    out += [dict(kind='pair', i=i, s=s) for i in range(0, len(FUNCS), 2) for s in ('neg', 'zero', 'pos')]
    return out + [dict(kind='lists'), dict(kind='helpers'), dict(kind='latex'), dict(kind='int')]


def val(env, x, name):
    """the named value, None where it is undefined (NaN), 'inf', '-inf'"""
    if name[0] == 'pow':
        r = 1
        for _ in range(name[1]):
            r = r * x
        return r
    if name[0] == 'sqrt':
        return None if bool(x < 0) else env.fn('sqrt')(x)
    if name[0] == 'tan':
        return env.fn('sin')(x) / env.fn('cos')(x)
    if name[0] == 'cot':
        s = env.fn('sin')(x)
        return 'inf' if bool(s == 0) else env.fn('cos')(x) / s
    if name[0] == 'ln':
        if bool(x < 0):
            return None
        return '-inf' if bool(x == 0) else env.fn('ln')(x)
    return env.fn(name[0])(x)


NAMES = [('pow', 1), ('pow', 2), ('pow', 3), ('pow', 4), ('pow', 5), ('sqrt',), ('sin',), ('cos',), ('tan',), ('cot',), ('exp',), ('ln',)]


def expect(env, got, want, label):
    if want is None:
        env.check(env.is_nan(got), label + ': NaN')
    elif isinstance(want, str):
        env.check(env.is_inf(got), label + ': infinite')
        env.check(got > 0 if want == 'inf' else got < 0, label + ': sign of the infinity')
    else:
        env.check(env.Not(env.Or(env.is_nan(got), env.is_inf(got))), label + ': finite')
        env.check_same(got, want, label)


def run(env, kind, i=0, s=''):
    pp = env.mod('postprocfuncs')
    env.lib('mpmath').mp.dps = 60
    if kind in ('fn', 'pair'):
        f = pp.EVALUATED_POSTPROC_FUNCS
        name = NAMES[i // 2]
        if s in ('nan', 'inf'):
            got = f[i](env.mpf(s)) if name[0] in ('pow', 'sqrt', 'ln') and (s == 'nan' or name[0] != 'sqrt') else None
            if got is None:
                return
            if s == 'nan':
                env.check(env.is_nan(got), 'NaN stays NaN')
            elif i % 2:
                env.check_same(got, 0, 'inverse of infinity')
            else:
                env.check(env.is_inf(got), 'infinity')
            return
        x = env.real('x', -100, 100) if s != 'zero' else env.mpf(0)
        if s != 'zero':
            env.assume(x > 0 if s == 'pos' else x < 0)
            if name[0] in ('tan', 'cot'):
                env.assume(env.fn('cos')(x) != 0)
        got = f[i](x)
        w = val(env, x, name)
        if kind == 'fn':
            if i % 2:
                if w is not None and not isinstance(w, str) and bool(w == 0):
                    w = 'inf'
                elif w is not None:
                    w = env.mpf(0) if isinstance(w, str) else 1 / w
            expect(env, got, w, FUNCS[i])
            if name[0] == 'sqrt' and i == 10 and w is not None:
                env.check(env.And(env.same(got * got, x), got >= 0), 'square root')
            env.obs('v', got)
        else:
            inv = f[i + 1](x)
            if w is None:
                env.check(env.is_nan(inv), 'both undefined')
            elif isinstance(w, str):
                env.check_same(inv, 0, 'inverse of infinity')
            elif bool(w == 0):
                env.check(env.And(env.is_inf(inv), inv > 0), 'inverse of zero')
            else:
                env.check_same(got * inv, 1, 'reciprocal')
    elif kind == 'lists':
        env.check_same(list(pp.POSTPROC_FUNCS[:len(FUNCS)]), FUNCS, 'positions are kept')
        n = len(pp.POSTPROC_FUNCS)
        env.check_same(len(pp.EVALUATED_POSTPROC_FUNCS), n, 'one function each')
        env.check(n % 2 == 0 and len(set(pp.POSTPROC_FUNCS)) == n, 'pairs of distinct names')
        pairs = [tuple(p) for p in pp.INVERSE_POSTPROC_PAIRS]
        want = [(j, j + 1) for j in range(0, n, 2)] + [(j + 1, j) for j in range(0, n, 2)]
        env.check_same(sorted(pairs), sorted(want), 'inverse pairs')
        env.check(sorted(pp.POSTPROC_FUNCS_LATEX) == sorted(pp.POSTPROC_FUNCS), 'a LaTeX form for each')
    elif kind == 'helpers':
        x = env.real('x', -100, 100)
        expect(env, pp.safe_inverse(x), 'inf' if bool(x == 0) else 1 / x, 'safe_inverse')
        expect(env, pp.safe_sqrt(x), None if bool(x < 0) else env.fn('sqrt')(x), 'safe_sqrt')
    elif kind == 'latex':
        # each form contains the fraction once and leaves the left-hand side alone or transforms both
        for name in pp.POSTPROC_FUNCS:
            l, r = pp.POSTPROC_FUNCS_LATEX[name]('LHS', 'RHS')
            env.check(l.count('LHS') == 1 and r.count('RHS') == 1, 'form of ' + name)
            env.check(r.count('{') == r.count('}') and r.count('\\left') == r.count('\\right'), 'balanced form of ' + name)
    else:
        n = env.int('n', -50, 50)
        f = pp.EVALUATED_POSTPROC_FUNCS
        for j, p in ((0, 1), (2, 2), (4, 3), (6, 4), (8, 5)):
            env.check_same(f[j](env.mpf(n)), env.mpf(n ** p), 'power of an integer')
