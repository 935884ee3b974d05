"""Helpers shared by the scenarios (Python 3.9 compatible; no raw comparisons of possibly symbolic values)."""


def polys(env, pre, k, d, lo=None, hi=None):
    return [[env.int('%s%d_%d' % (pre, i, j), lo, hi) for j in range(d)] for i in range(k)]


def peval(p, x):
    """c0 + c1*x + ... by Horner (independent of the implementation)"""
    r = 0
    for c in reversed(list(p)):
        r = r * x + c
    return r


def term(p, i):
    return peval(p[i % len(p)], i)


def nested(A, B, n):
    """a0 + b1/(a1 + ... bn/an) as a numerator and denominator, evaluated from the inside"""
    num, den = A(n), 1
    for i in range(n, 0, -1):
        num, den = A(i - 1) * num + B(i) * den, num
    return num, den


def same_bag(env, xs, ys, label):
    """xs and ys hold the same items with the same multiplicities, in any order (ys pairwise distinct is not required)"""
    xs, ys = list(xs), list(ys)
    env.check(len(xs) == len(ys), label + ' (number of items)')
    rest = list(range(len(ys)))
    for x in xs:
        hit, maybe = None, []
        for j in rest:
            s = env.same(x, ys[j])
            if s is True:
                hit = j
                break
            if s is not False:
                maybe.append((j, s))
        if hit is None:
            for j, s in maybe:
                if s:                       # decided (forked) by the solver
                    hit = j
                    break
        if hit is None:
            env.fail(label)
        rest.remove(hit)


def product(lists):
    out = [()]
    for l in lists:
        out = [o + (x,) for o in out for x in l]
    return out


def quiet_mpf(env):
    return env.lib('mpmath').mpf
