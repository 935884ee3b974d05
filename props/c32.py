"""C32: the digits of the stored constants."""
from fractions import Fraction

ID = 'C32'
ASSUMPTIONS = ["the defining property of each constant: a quadratic and a cubic equation, or bounds by partial sums of a series with a bound of "
               'its remainder (exponential series, arctangent series in Machin\'s formula, Euler-Maclaurin)',
               "Feigenbaum's constants have no such characterisation and are outside",
               'rounding is outside the symbolic model (the stored literals are exact there); it is seen by the runs on the real library']
BOUNDS = {'quick': 'for every real number x with the defining property of a constant, the generated constant differs from x by less than 10**-98 (pi and e: '
                   '10**-147) or than a unit in the second last digit of a lower precision, at every precision in [15, 1000] given or already in '
                   'force',
          'thorough': 'as quick'}
DIGITS = {'pi': 147, 'e': 147}
RANGES = [(15, 59), (60, 149), (150, 1000)]


def cases(tier):
    out = [dict(name=n) for n in ('pi', 'e', 'phi', 'euler_masch', 'apery')]
    out += [dict(name='percolation', i=i) for i in (0, 1)]
    out += [dict(name='zeta', i=i) for i in range(2, 21)]
    return [dict(c, form=f, low=r[0], high=r[1]) for c in out for f in ('position', 'keyword', 'before') for r in RANGES]


def atan_inverse(k, n):
    """bounds of arctan(1/k) by n and n+1 terms of the alternating series"""
    s, sums = Fraction(0), []
    for j in range(n + 1):
        s += Fraction((-1) ** j, (2 * j + 1) * k ** (2 * j + 1))
        sums.append(s)
    return min(sums[-2:]), max(sums[-2:])


def bernoulli(n):
    b = []
    for m in range(n + 1):
        s, c = Fraction(0), 1
        for k in range(m):
            s += c * b[k]
            c = c * (m + 1 - k) // (k + 1)
        b.append(Fraction(1) if m == 0 else -s / (m + 1))
    return b


B = bernoulli(90)


def bounds(name, i):
    """(lower, upper) rational bounds of the constant"""
    if name == 'e':
        s, f = Fraction(0), 1
        for k in range(130):
            if k:
                f *= k
            s += Fraction(1, f)
        return s, s + Fraction(1, 129 * f)
    if name == 'pi':
        a, b = atan_inverse(5, 125), atan_inverse(239, 40)
        return 16 * a[0] - 4 * b[1], 16 * a[1] - 4 * b[0]
    if name in ('zeta', 'apery'):
        # Euler-Maclaurin; the correction terms alternate in sign and enclose the value
        s, n = i or 3, 200
        v = sum(Fraction(1, k ** s) for k in range(1, n)) + Fraction(1, (s - 1) * n ** (s - 1)) + Fraction(1, 2 * n ** s)
        p, f, sums = s, 2, []
        for j in range(1, 42):
            v += B[2 * j] * p / f / n ** (s + 2 * j - 1)
            sums.append(v)
            p *= (s + 2 * j - 1) * (s + 2 * j)
            f *= (2 * j + 1) * (2 * j + 2)
        return min(sums[-2:]), max(sums[-2:])
    if name == 'euler_masch':
        # H_n - ln n - 1/(2n) + sum B_2j / (2j n^2j), the terms alternating again; ln 256 = 8 ln 2 = 16 artanh(1/3)
        n = 256
        l = sum(Fraction(1, (2 * j + 1) * 3 ** (2 * j + 1)) for j in range(120))
        lo, hi = 16 * l, 16 * (l + Fraction(1, 3 ** 241))
        v = sum(Fraction(1, k) for k in range(1, n + 1)) - Fraction(1, 2 * n)
        sums = []
        for j in range(1, 42):
            v += B[2 * j] / (2 * j * n ** (2 * j))
            sums.append(v)
        return min(sums[-2:]) - hi, max(sums[-2:]) - lo


def run(env, name, form, low, high, i=None):
    env.literal_digits(149)
    mp = env.lib('mpmath').mp
    gc = env.mod('gen_consts')
    f = getattr(gc, 'gen_%s_const%s' % (name, 's' if i is not None else ''))
    a = () if i is None else (i,)
    k = {} if i is None else {'i': i}
    p = env.int('p', low, high)
    q = env.int('q', low, high)
    if form != 'before':
        # the precision in force before may be any
        q = env.int('r', 5, 1000)
    digits = min(DIGITS.get(name, 98), low - 2)
    mp.dps = 300
    x = env.real('x', 0, 4)
    small = env.mpf(1) / 10 ** 160
    if name == 'phi':
        r = x * x - x - 1
        env.assume(env.And(x > 1, r < small, r > -small))
    elif name == 'percolation':
        # 1 - t and t with t = 2 sin(pi/18): t^3 - 3 t + 1 = 0, 0 < t < 1
        t = x if i else 1 - x
        r = t * t * t - 3 * t + 1
        env.assume(env.And(t > 0, t < 1, r < small, r > -small))
    else:
        lo, hi = bounds(name, i)
        lo, hi = env.mpf(lo.numerator) / lo.denominator, env.mpf(hi.numerator) / hi.denominator
        env.check(hi - lo < env.mpf(1) / 10 ** 102, 'the characterisation is sharp enough')
        env.assume(env.And(x > lo, x < hi))
    mp.dps = q
    if form == 'position':
        v = f(p, *a)
    elif form == 'keyword':
        v = f(prec=p, **k)
    else:
        v = f(None, *a)
    mp.dps = 300
    tol = env.mpf(1) / 10 ** digits
    env.check(env.And(v - x < tol, x - v < tol), 'digits')
