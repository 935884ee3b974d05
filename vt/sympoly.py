"""Univariate polynomials standing for sympy.Poly over ZZ / QQ, with symbolic coefficients. Coefficient lists are
normalised (leading coefficient nonzero on the path), division over ZZ follows sympy's ring division, gcd is computed by
the primitive remainder sequence with the solver deciding every zero test and every content."""
from fractions import Fraction
from . import core, num, strs
from .core import Unsupported, sym_and, sym_not
from .num import SymInt, SymReal, MPF, mkint, to_int_poly
from .shims import deep_eq


class SymRat(SymReal):
    """a sympy Rational/Integer coefficient over QQ"""
    __slots__ = ()
    _name = 'Rational'

    def __int__(self):
        r = num.real_trunc_int(self)
        return r

    @property
    def p(self):
        raise Unsupported('Rational.p')

    @property
    def q(self):
        raise Unsupported('Rational.q')

    @property
    def is_integer(self):
        return num.real_isint(self)

    is_Integer = is_integer

    def _cls(self, o):
        return MPF if isinstance(o, MPF) else SymRat


class PolynomialError(Exception):
    pass


def _zero(c):
    r = c == 0
    return bool(r)


def _int_of(c):
    """int (SymInt) value of a coefficient known to be integral"""
    if isinstance(c, SymReal):
        if c.d.is_const() and c.d.const_val() == 1 and c.n.integer_valued():
            return mkint(c.n)
        return num.real_trunc_int(c)
    return c


class SPoly(object):
    is_Poly = True

    def __init__(self, low, dom='ZZ', norm=True):
        low = list(low)
        if norm:
            while low and _zero(low[-1]):
                low.pop()
        self.c = low
        self.dom = dom
        self._cof = None

    # construction
    @classmethod
    def from_list(cls, rep, gens=None, domain=None, **kw):
        return mk(list(reversed(rep)), domain)

    # queries
    def all_coeffs(self):
        return list(reversed(self.c)) if self.c else [0]

    def coeffs(self):
        r = [x for x in reversed(self.c) if not _zero(x)]
        return r or [0]

    def degree(self, gen=None):
        return len(self.c) - 1 if self.c else float('-inf')

    def LC(self):
        return self.c[-1] if self.c else 0

    def TC(self):
        return self.c[0] if self.c else 0

    def nth(self, n):
        return self.c[n] if n < len(self.c) else 0

    @property
    def is_zero(self):
        return not self.c

    @property
    def is_one(self):
        return len(self.c) == 1 and bool(self.c[0] == 1)

    @property
    def is_ground(self):
        return len(self.c) <= 1

    def as_expr(self):
        return self

    def get_domain(self):
        return self.dom

    @property
    def domain(self):
        return self.dom

    def set_domain(self, d):
        return SPoly(self.c, _dom(d), norm=False)

    def to_field(self):
        return self._qq()

    def copy(self):
        return SPoly(self.c, self.dom, norm=False)

    def eval(self, x):
        r = 0
        for k in reversed(self.c):
            r = r * x + k
        return r

    __call__ = eval

    def _qq(self):
        return SPoly([_rat(x) for x in self.c], 'QQ', norm=False)

    def _co(self, o):
        if isinstance(o, SPoly):
            return o
        if isinstance(o, int):
            return SPoly([o], 'ZZ')
        if isinstance(o, SymReal) or isinstance(o, Fraction):
            return SPoly([_rat(o)], 'QQ')
        return None

    def _join(self, o):
        return 'QQ' if 'QQ' in (self.dom, o.dom) else 'ZZ'

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        n = max(len(self.c), len(o.c))
        a = self.c + [0] * (n - len(self.c))
        b = o.c + [0] * (n - len(o.c))
        return SPoly([x + y for x, y in zip(a, b)], self._join(o))

    __radd__ = __add__

    def __neg__(self):
        return SPoly([-x for x in self.c], self.dom, norm=False)

    def __sub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if not self.c or not o.c:
            return SPoly([], self._join(o))
        r = [0] * (len(self.c) + len(o.c) - 1)
        for i, x in enumerate(self.c):
            for j, y in enumerate(o.c):
                r[i + j] = r[i + j] + x * y
        return SPoly(r, self._join(o), norm=False)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = SPoly([1], self.dom)
        for _ in range(n):
            r = r * self
        return r

    add, sub, mul, neg, pow = __add__, __sub__, __mul__, __neg__, __pow__

    def __eq__(self, o):
        o = self._co(o)
        if o is None:
            return False
        if len(self.c) != len(o.c):
            return False
        return sym_and(*[x == y for x, y in zip(self.c, o.c)])

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __hash__(self):
        return 0x5e1

    def __bool__(self):
        return bool(self.c)

    # division
    def div(self, o, auto=True):
        o = self._co(o)
        if not o.c:
            raise ZeroDivisionError('polynomial division')
        cof = o._cof
        if cof is not None and self.dom == 'ZZ':
            for p, u in cof:
                if p is self or (p.c is self.c) or (len(p.c) == len(self.c) and all(
                        _same(x, y) for x, y in zip(p.c, self.c))):
                    return (u if not auto else u._qq_if(self, o)), SPoly([], 'ZZ')
        if (auto and 'ZZ' in (self.dom, o.dom)) or 'QQ' in (self.dom, o.dom):
            q, r = _ff_div(self._qq().c, o._qq().c)
            q, r = SPoly(q, 'QQ'), SPoly(r, 'QQ')
            if auto:
                # sympy goes back to the ring when both results allow it; values are unchanged
                pass
            return q, r
        return _rr_div(self, o)

    def _qq_if(self, *a):
        return self

    def quo(self, o, auto=True):
        return self.div(o, auto)[0]

    def rem(self, o, auto=True):
        return self.div(o, auto)[1]

    def exquo(self, o, auto=True):
        q, r = self.div(o, auto)
        if r.c:
            raise PolynomialError('not exact')
        return q

    def __floordiv__(self, o):
        return self.quo(o)

    def __mod__(self, o):
        return self.rem(o)

    def __divmod__(self, o):
        return self.div(o)

    def __truediv__(self, o):
        o = self._co(o)
        raise Unsupported('rational expression of polynomials')

    def content(self):
        return content(self.c)

    def primitive(self):
        g = content(self.c)
        return g, SPoly([exact_div(x, g) for x in self.c], self.dom, norm=False)

    def monic(self, auto=True):
        lc = self.c[-1]
        return SPoly([_rat(x) / lc for x in self.c], 'QQ', norm=False)

    def gcd(self, o):
        o = self._co(o)
        return gcd(self, o)[0]

    def cofactors(self, o):
        return gcd(self, self._co(o))

    def cancel(self, o, include=False):
        g, u, v = gcd(self, self._co(o))
        if v.c and bool(v.c[-1] < 0):
            u, v = -u, -v
        if include:
            return u, v
        return 1, u, v

    def diff(self, *a):
        return SPoly([i * x for i, x in enumerate(self.c)][1:], self.dom, norm=False)

    def __repr__(self):
        return 'Poly(%r)' % (self.c,)


def _same(x, y):
    if x is y:
        return True
    r = deep_eq(x, y)
    return r is True


def _rat(x):
    if isinstance(x, SymRat):
        return x
    if isinstance(x, SymReal):
        return SymRat._make(x.n, x.d)
    p = to_int_poly(x)
    if p is not None:
        return SymRat._make(p)
    return SymRat._make(core.Poly.const(Fraction(x)))


def _ff_div(f, g):
    q = [0] * max(0, len(f) - len(g) + 1)
    r = list(f)
    lg = g[-1]
    while len(r) >= len(g):
        if r and _zero(r[-1]):
            r.pop()
            continue
        c = r[-1] / lg
        j = len(r) - len(g)
        q[j] = c
        r = [r[i] - (c * g[i - j] if i >= j else 0) for i in range(len(r) - 1)]
    return q, r


def _rr_div(f, g):
    """sympy's dup_rr_div: stops at the first inexact leading quotient"""
    q = {}
    r = f.c
    lg = g.c[-1]
    while len(r) >= len(g.c):
        lr = r[-1]
        if bool(lr % lg != 0):
            break
        c = lr // lg
        j = len(r) - len(g.c)
        q[j] = c
        r = [r[i] - (c * g.c[i - j] if i >= j else 0) for i in range(len(r) - 1)]
        r = SPoly(r).c
    qq = [q.get(i, 0) for i in range((max(q) + 1) if q else 0)]
    return SPoly(qq), SPoly(r, norm=False)


def igcd(vals):
    vals = [v for v in vals if not (type(v) is int and v == 0)]
    if not vals:
        return 0
    if all(type(v) is int for v in vals):
        import math
        return math.gcd(*vals)
    ms = []
    for v in vals:
        if type(v) is int:
            ms.append(abs(v))
        else:
            lo, hi = v.p.bounds()
            if lo is not None and hi is not None:
                ms.append(max(abs(lo), abs(hi)))
            else:
                ms.append(10 ** 9)
    # at least one value nonzero?
    nz = [v for v, m in sorted(zip(vals, ms), key=lambda t: t[1])]
    ms.sort()
    M = None
    for v, m in zip(nz, ms):
        if not _zero(v):
            M = m
            break
    if M is None:
        return 0
    if M > 200:
        if M >= 10 ** 9:
            raise Unsupported('content of large coefficients')
        import math
        return math.gcd(*[num._conc(v) for v in vals])
    for d in range(M, 1, -1):
        if bool(sym_and(*[v % d == 0 for v in vals])):
            return d
    return 1


def content(cs):
    return igcd(cs)


def exact_div(x, g):
    if g == 1:
        return x
    return x // g


def _prem(f, g):
    r = list(f)
    lg = g[-1]
    while len(r) >= len(g):
        lr = r[-1]
        j = len(r) - len(g)
        r = [lg * r[i] - (lr * g[i - j] if i >= j else 0) for i in range(len(r) - 1)]
        r = SPoly(r).c
    return r


def _divpoly(p, g):
    """exact quotient p / g over the integers, g primitive times content known to divide"""
    r = list(p)
    q = [0] * (len(p) - len(g) + 1)
    while len(r) >= len(g):
        c = r[-1] // g[-1] if not (type(g[-1]) is int and g[-1] == 1) else r[-1]
        j = len(r) - len(g)
        q[j] = c
        r = [r[i] - (c * g[i - j] if i >= j else 0) for i in range(len(r) - 1)]
    return q


def gcd(p, o):
    """(g, p/g, o/g) over ZZ (leading coefficient of g positive)"""
    if 'QQ' in (p.dom, o.dom):
        raise Unsupported('gcd over QQ')
    if not p.c and not o.c:
        return SPoly([]), SPoly([]), SPoly([])
    if not p.c or not o.c:
        f = o if not p.c else p
        s = -1 if bool(f.c[-1] < 0) else 1
        g = f if s == 1 else -f
        u = SPoly([s])
        res = (g, SPoly([]), u) if not p.c else (g, u, SPoly([]))
        g._cof = [(f, u), (p if f is o else o, SPoly([]))]
        return res
    c = igcd(p.c + o.c)
    a, b = (p.c, o.c) if len(p.c) >= len(o.c) else (o.c, p.c)
    if len(b) == 1:
        h = [1]
    else:
        h = None
        while True:
            r = _prem(a, b)
            if not r:
                h = b
                break
            if len(r) == 1:
                h = [1]
                break
            a, b = b, r
    if len(h) > 1:
        k = igcd(h)
        h = [exact_div(x, k) for x in h]
        if bool(h[-1] < 0):
            h = [-x for x in h]
    g = SPoly([x * c for x in h], norm=False)
    us = []
    for f in (p, o):
        if len(h) == 1:
            u = SPoly([exact_div(x, c) for x in f.c], norm=False)
        else:
            u = SPoly(_divpoly([exact_div(x, c) for x in f.c], h), norm=False)
        us.append(u)
    g._cof = [(p, us[0]), (o, us[1])]
    return g, us[0], us[1]


def mk(low, domain=None):
    dom = _dom(domain)
    if dom is None:
        dom = 'QQ' if any(isinstance(x, (SymReal, Fraction, float)) for x in low) else 'ZZ'
    if dom == 'QQ':
        low = [_rat(x) for x in low]
    else:
        low = [_int_of(x) for x in low]
    return SPoly(low, dom)


def _dom(d):
    if d is None:
        return None
    s = str(d)
    if s in ('ZZ', 'QQ'):
        return s
    raise Unsupported('sympy domain %s' % s)


def parse(s, x='x'):
    """polynomial expression text"""
    pos = 0
    s = s.replace(' ', '').replace('\n', '')

    def peek():
        return s[pos] if pos < len(s) else ''

    def expr():
        nonlocal pos
        r = term()
        while peek() in ('+', '-') and peek():
            op = peek()
            pos += 1
            t = term()
            r = r + t if op == '+' else r - t
        return r

    def term():
        nonlocal pos
        r = factor()
        while peek() == '*' and s[pos:pos + 2] != '**':
            pos += 1
            r = r * factor()
        return r

    def factor():
        nonlocal pos
        if peek() == '-':
            pos += 1
            return -factor()
        if peek() == '+':
            pos += 1
            return factor()
        b = atom()
        if s[pos:pos + 2] == '**' or peek() == '^':
            pos += 2 if peek() == '*' else 1
            e = factor()
            if len(e.c) > 1:
                raise Unsupported('symbolic exponent in polynomial text')
            n = e.c[0] if e.c else 0
            return b ** num._conc(n)
        return b

    def atom():
        nonlocal pos
        ch = peek()
        if ch == '(':
            pos += 1
            r = expr()
            if peek() != ')':
                raise SyntaxError('polynomial text')
            pos += 1
            return r
        if ch.isdigit():
            j = pos
            while j < len(s) and s[j].isdigit():
                j += 1
            v = int(s[pos:j])
            if j < len(s) and (s[j] == '.' or strs.has_tok(s[j])):
                raise Unsupported('polynomial text %r' % s)
            pos = j
            return _P([v])
        if ch and strs.has_tok(ch):
            v = strs.tok_int(ch)
            if v is None:
                raise Unsupported('real coefficient in polynomial text')
            pos += 1
            return _P([v])
        if s.startswith(x, pos):
            pos += len(x)
            return _P([0, 1])
        raise SyntaxError('polynomial text %r at %d' % (s, pos))

    r = expr()
    if pos != len(s):
        raise SyntaxError('polynomial text %r at %d' % (s, pos))
    return SPoly(r.c, 'ZZ')


class _P(SPoly):
    """unnormalised polynomial used while building"""

    def __init__(self, c, dom='ZZ'):
        self.c, self.dom, self._cof = list(c), dom, None

    def __add__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        n = max(len(self.c), len(o.c))
        a = self.c + [0] * (n - len(self.c))
        b = o.c + [0] * (n - len(o.c))
        return _P([x + y for x, y in zip(a, b)])

    __radd__ = __add__

    def _lift(self, o):
        if isinstance(o, SPoly):
            return o
        if isinstance(o, (int, SymReal, Fraction)):
            return _P([o])
        return None

    def __neg__(self):
        return _P([-x for x in self.c])

    def __sub__(self, o):
        o = self._lift(o)
        return NotImplemented if o is None else self + _P([-x for x in o.c])

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        if not self.c or not o.c:
            return _P([])
        r = [0] * (len(self.c) + len(o.c) - 1)
        for i, x in enumerate(self.c):
            for j, y in enumerate(o.c):
                r[i + j] = r[i + j] + x * y
        return _P(r)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = _P([1])
        for _ in range(num._conc(n)):
            r = r * self
        return r


def symbols(name):
    return Sym(name)


class Sym(_P):
    def __init__(self, name):
        _P.__init__(self, [0, 1])
        self.name = name

    def __str__(self):
        return self.name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return self is o if isinstance(o, Sym) else SPoly.__eq__(self, o)


def poly(expr, *gens, **kw):
    dom = kw.get('domain')
    if isinstance(expr, str):
        p = parse(expr, gens[0].name if gens else 'x')
        return SPoly(p.c, _dom(dom) or 'ZZ', norm=False)
    if isinstance(expr, SPoly):
        return mk(expr.c, dom)
    if isinstance(expr, (list, tuple)):
        return mk(list(reversed(expr)), dom)
    if isinstance(expr, (int, SymReal)):
        return mk([expr], dom)
    if isinstance(expr, dict):
        n = max([k[0] if isinstance(k, tuple) else k for k in expr], default=-1) + 1
        low = [0] * n
        for k, v in expr.items():
            low[k[0] if isinstance(k, tuple) else k] = v
        return mk(low, dom)
    raise Unsupported('sympy.poly of %r' % type(expr))


class _PolyMeta(type):
    def __call__(cls, *a, **k):
        return poly(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, SPoly)


class Poly(metaclass=_PolyMeta):
    from_list = SPoly.from_list
