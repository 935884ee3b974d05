"""Symbolic integers (Python int) and exact reals (mpmath.mpf / float, taken as exact numbers)."""
from fractions import Fraction
import z3
from . import core
from .core import (Poly, ZERO, ONE, ATOMS, SymBool, Unsupported, PathAbort, cmp_zero, sym_and, sym_or, sym_not,
                   _norm, poly_sqrt, poly_divexact)

_int, _float, _isinstance, _bool = int, float, isinstance, bool


def eng():
    return core.ENGINE


# ------------------------------------------------------------------ helpers on polynomials
def atom_poly(a):
    return Poly.atom(a)


def _zdef(*conds):
    return list(conds)


def _fd(a, b):
    return a // b


def divmod_polys(a, b):
    """Python integer divmod on integer polynomials; b must be known nonzero and its sign is forked on"""
    if b.is_const():
        c = b.const_val()
        if a.is_const():
            q, r = divmod(a.const_val(), c)
            return Poly.const(q), Poly.const(r)
        # part divisible by c coefficient-wise goes straight to the quotient
        dq, rest = {}, {}
        for m, k in a.d.items():
            q, r = divmod(k, c) if c > 0 else divmod(k, c)
            if q:
                dq[m] = q
            if r:
                rest[m] = r
        qp, rp = Poly(dq), Poly(rest)
        if rp.is_const():
            return qp, rp
        q2, r2 = _divatoms(rp, b, 1 if c > 0 else -1)
        return qp + q2, r2
    if a.d == b.d:
        return ONE, ZERO
    if not a.d:
        return ZERO, ZERO
    q = poly_divexact(a, b)
    if q is not None and q.integer_valued():
        return q, ZERO
    sgn = 1 if bool(cmp_zero(-b, 'lt')) else -1
    return _divatoms(a, b, sgn)


def _divatoms(a, b, sgn):
    k = ('div', a.key(), b.key())
    n = len(ATOMS.atoms)
    lo, hi = a.bounds()
    ev = lambda f, a=a, b=b: _fd(f(a), f(b))
    qlo = qhi = None
    if b.is_const():
        c = b.const_val()
        if lo is not None and hi is not None:
            v = (lo // c, hi // c)
            qlo, qhi = min(v), max(v)
    qa = ATOMS.by_key.get(k)
    if qa is None:
        q = ATOMS.get(k, name='div!%d' % n, isint=True, lo=qlo, hi=qhi, evalf=ev)
        qp = Poly.atom(q)

        def define(a=a, b=b, qp=qp, sgn=sgn):
            r = a - b * qp
            eng().use(a)
            eng().use(b)
            if sgn > 0:
                return [r.z() >= 0, (r - b).z() < 0]
            return [r.z() <= 0, (b - r).z() < 0]
        q.define = define
        q.deps = [a, b]
    else:
        q = ATOMS.atoms[qa]
    qp = Poly.atom(q)
    eng().use_atom(q)
    # remainder as its own bounded atom when the divisor is a constant keeps later polynomials small
    r = a - b * qp
    return qp, r


def abs_poly(p):
    lo, hi = p.bounds()
    if lo is not None and lo >= 0:
        return p
    if hi is not None and hi <= 0:
        return -p
    e = eng()
    # the sign may already be known on this path
    for c, r in ((cmp_zero(p, 'lt'), -p), (cmp_zero(-p, 'lt'), p), (cmp_zero(p, 'le'), -p), (cmp_zero(-p, 'le'), p)):
        if c is True:
            return r
    q, s = p.content_normal()
    isint = p.integer_valued()
    if isint:
        # use the polynomial up to sign
        q = p if s > 0 else -p
    else:
        q = p if s > 0 else -p
    k = ('abs', q.key())
    i = ATOMS.by_key.get(k)
    if i is None:
        b = [abs(x) for x in (lo, hi) if x is not None]
        a = ATOMS.get(k, name='abs!%d' % len(ATOMS.atoms), isint=isint, lo=0,
                      hi=max(b) if len(b) == 2 else None, evalf=lambda f, q=q: None if f(q) is None else abs(f(q)))

        def define(q=q, a=a):
            eng().use(q)
            return [z3.If(q.z() >= 0, a.z == q.z(), a.z == -q.z())]
        a.define = define
    else:
        a = ATOMS.atoms[i]
    e.use_atom(a)
    return Poly.atom(a)


def to_int_poly(x):
    """Poly of an int-like value or None"""
    t = type(x)
    if t is SymInt:
        return x.p
    if t is _bool or t is _int:
        return Poly.const(_int(x))
    if t is SymBool:
        return Poly.const(_int(_bool(x)))
    if _isinstance(x, _int):
        return Poly.const(_int(x))
    return None


def mkint(p):
    if p.is_const():
        c = p.const_val()
        if type(c) is Fraction:
            raise Unsupported('non-integral integer')
        return c
    return SymInt(p)


class SymInt(object):
    """A Python int whose value is an integer polynomial over atoms. Constants are plain Python ints."""
    __slots__ = ('p',)
    _vt_symbolic = True

    def __init__(self, p):
        self.p = p

    @property
    def __class__(self):
        return _int

    # arithmetic
    def __add__(self, o):
        q = to_int_poly(o)
        if q is None and type(o) is _float:
            return SymFloat._from(self.p) + _sf(o)
        return NotImplemented if q is None else mkint(self.p + q)

    __radd__ = __add__

    def __sub__(self, o):
        q = to_int_poly(o)
        if q is None and type(o) is _float:
            return SymFloat._from(self.p) - _sf(o)
        return NotImplemented if q is None else mkint(self.p - q)

    def __rsub__(self, o):
        q = to_int_poly(o)
        if q is None and type(o) is _float:
            return _sf(o) - SymFloat._from(self.p)
        return NotImplemented if q is None else mkint(q - self.p)

    def __mul__(self, o):
        q = to_int_poly(o)
        if q is None:
            if type(o) in (str, list, tuple):
                return o * self.__index__()
            if type(o) is _float:
                return SymFloat._from(self.p) * _sf(o)
            return NotImplemented
        return mkint(self.p * q)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.p)

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(-self.p - ONE)

    def __abs__(self):
        return mkint(abs_poly(self.p))

    def __floordiv__(self, o):
        q = to_int_poly(o)
        if q is None and type(o) is _float:
            return SymFloat._from(self.p) // _sf(o)
        return NotImplemented if q is None else _idivmod(self.p, q)[0]

    def __rfloordiv__(self, o):
        q = to_int_poly(o)
        if q is None and type(o) is _float:
            return _sf(o) // SymFloat._from(self.p)
        return NotImplemented if q is None else _idivmod(q, self.p)[0]

    def __mod__(self, o):
        q = to_int_poly(o)
        if q is None and type(o) is _float:
            return SymFloat._from(self.p) % _sf(o)
        return NotImplemented if q is None else _idivmod(self.p, q)[1]

    def __rmod__(self, o):
        q = to_int_poly(o)
        if q is None and type(o) is _float:
            return _sf(o) % SymFloat._from(self.p)
        return NotImplemented if q is None else _idivmod(q, self.p)[1]

    def __divmod__(self, o):
        q = to_int_poly(o)
        return NotImplemented if q is None else _idivmod(self.p, q)

    def __rdivmod__(self, o):
        q = to_int_poly(o)
        return NotImplemented if q is None else _idivmod(q, self.p)

    def __truediv__(self, o):
        q = to_int_poly(o)
        if q is None and type(o) is _float:
            return SymFloat._from(self.p) / _sf(o)
        return NotImplemented if q is None else rdiv(SymFloat, self.p, ONE, q, ONE)

    def __rtruediv__(self, o):
        q = to_int_poly(o)
        if q is None and type(o) is _float:
            return _sf(o) / SymFloat._from(self.p)
        return NotImplemented if q is None else rdiv(SymFloat, q, ONE, self.p, ONE)

    def __pow__(self, o, mod=None):
        if mod is not None:
            return (self ** o) % mod
        if type(o) is SymInt:
            o = o.__index__()
        if type(o) in (_int, _bool):
            if o >= 0:
                return mkint(self.p.pow(o))
            return rdiv(SymFloat, ONE, ONE, self.p.pow(-o), ONE)
        if type(o) in (_float, Fraction):
            return SymFloat._from(self.p) ** o
        return NotImplemented

    def __rpow__(self, o):
        n = self.__index__()
        return o ** n

    def __lshift__(self, o):
        return self * (1 << _conc(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (1 << _conc(o))

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if type(o) is _int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self.__index__() & o

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | _conc(o)

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ _conc(o)

    __rxor__ = __xor__

    # comparisons
    def __eq__(self, o):
        q = to_int_poly(o)
        if q is None:
            if _isinstance(o, SymReal):
                return NotImplemented
            if type(o) in (_float, Fraction):
                return SymFloat._from(self.p) == o
            return NotImplemented
        return cmp_zero(self.p - q, 'eq')

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _cmp(self, o, op, swap):
        q = to_int_poly(o)
        if q is None:
            if type(o) in (_float, Fraction):
                q = _fconst(o)
                if q is None:
                    raise Unsupported('comparison of int with inf/nan')
            else:
                return NotImplemented
        return cmp_zero(q - self.p if swap else self.p - q, op)

    def __lt__(self, o):
        return self._cmp(o, 'lt', False)

    def __le__(self, o):
        return self._cmp(o, 'le', False)

    def __gt__(self, o):
        return self._cmp(o, 'lt', True)

    def __ge__(self, o):
        return self._cmp(o, 'le', True)

    def __bool__(self):
        return not _bool(cmp_zero(self.p, 'eq'))

    def __index__(self):
        return eng().concretize(self.p, 'int')

    def __int__(self):
        return self.__index__()

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def __float__(self):
        return _float(self.__index__())

    def __complex__(self):
        return complex(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def bit_length(self):
        return self.__index__().bit_length()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def __str__(self):
        from . import strs
        return strs.int_text(self)

    __repr__ = __str__

    def __format__(self, spec):
        from . import strs
        if spec in ('', 'd', 'n'):
            return strs.int_text(self)
        import re
        m = re.fullmatch(r'(?:(.)?([<>]))?(0?)(\d)d?', spec)
        if m and int(m.group(4)) <= 4 and strs.SPLIT_SIGN:
            # the padded text is opaque: it can be printed, not compared
            return strs._token(('pad', self.p.key(), spec), ('pad', self.p, spec))
        return format(self.__index__(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _conc(o):
    return o.__index__() if type(o) is SymInt else o


def _idivmod(a, b):
    if b.is_const():
        if b.const_val() == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
    elif _bool(cmp_zero(b, 'eq')):
        raise ZeroDivisionError('integer division or modulo by zero')
    q, r = divmod_polys(a, b)
    return mkint(q), mkint(r)


def _fconst(o):
    if type(o) is _float:
        if o != o or o in (_float('inf'), _float('-inf')):
            return None
        return Poly.const(snap(o))
    return Poly.const(Fraction(o))


def snap(f):
    """the simple fraction a concrete float stands for (Python floats are exact reals here, 1/3 is a third)"""
    q = Fraction(f)
    if q.denominator > 4096:
        r = q.limit_denominator(4096)
        if _float(r) == f:
            return r
    return q


def _sf(o):
    return _sfs(o) if type(o) is _float else None


def _sfs(f):
    return SymFloat._special('nan')._co(f)


# ------------------------------------------------------------------ reals
def rdiv(cls, n1, d1, n2, d2):
    """(n1/d1)/(n2/d2) with the zero test forked"""
    if n2.is_const():
        if n2.const_val() == 0:
            raise ZeroDivisionError()
    elif _bool(cmp_zero(n2, 'eq')):
        raise ZeroDivisionError()
    return cls._make(n1 * d2, d1 * n2)


class SymReal(object):
    """An exact real num/den (den known nonzero on the path), or inf/-inf/nan in `sp`. Also stands for concrete
    numbers. As mpmath.mpf it is exact: rounding at the working precision is outside the model."""
    __slots__ = ('n', 'd', 'sp')
    _vt_symbolic = True
    _name = 'mpf'

    def __new__(cls, val=0, **kw):
        self = object.__new__(cls)
        self.n, self.d, self.sp = _parse_real(val)
        return self

    @classmethod
    def _make(cls, n, d=ONE, sp=None):
        self = object.__new__(cls)
        if sp is None and d.is_const():
            c = d.const_val()
            if c != 1:
                n, d = n.scale(Fraction(1, 1) / c), ONE
        elif sp is None:
            if not n.d:
                d = ONE
            elif n.d == d.d:
                n, d = ONE, ONE
            else:
                n, d = _simplify_frac(n, d)
        self.n, self.d, self.sp = n, d, sp
        return self

    @classmethod
    def _from(cls, p):
        return cls._make(p)

    @classmethod
    def _special(cls, sp):
        return cls._make(ZERO, ONE, sp)

    def is_const(self):
        return self.sp is None and self.n.is_const() and self.d.is_const()

    def const_val(self):
        return Fraction(self.n.const_val()) / Fraction(self.d.const_val())

    # coercion: returns SymReal-compatible triple or None
    def _co(self, o):
        t = type(o)
        if _isinstance(o, SymReal):
            return o
        p = to_int_poly(o)
        if p is not None:
            return type(self)._make(p)
        if t is _float:
            if o != o:
                return type(self)._special('nan')
            if o in (_float('inf'), _float('-inf')):
                return type(self)._special('inf' if o > 0 else '-inf')
            return type(self)._make(Poly.const(snap(o) if type(self) is SymFloat else Fraction(o)))
        if t is Fraction:
            return type(self)._make(Poly.const(o))
        return None

    def _cls(self, o):
        # mpf absorbs float
        return SymReal if (type(self) is SymReal or type(o) is SymReal) else type(self)

    def _sign(self):
        """-1/0/1, forking"""
        if self.sp:
            return 1 if self.sp == 'inf' else -1
        if _bool(self._cz('lt')):
            return -1
        if _bool(self._cz('eq')):
            return 0
        return 1

    def _cz(self, op):
        """condition self op 0 (finite)"""
        if self.d.is_const():
            return cmp_zero(self.n if self.d.const_val() > 0 else -self.n, op)
        if op == 'eq':
            return cmp_zero(self.n, 'eq')
        # sign of the denominator known?
        dpos = cmp_zero(-self.d, 'lt')
        if dpos is True:
            return cmp_zero(self.n, op)
        if dpos is False:
            return cmp_zero(-self.n, op)
        if op == 'lt':
            return sym_or(sym_and(dpos, cmp_zero(self.n, 'lt')), sym_and(sym_not(dpos), cmp_zero(-self.n, 'lt')))
        return sym_or(sym_and(dpos, cmp_zero(self.n, 'le')), sym_and(sym_not(dpos), cmp_zero(-self.n, 'le')))

    # arithmetic
    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        c = self._cls(o)
        if self.sp or o.sp:
            if self.sp == 'nan' or o.sp == 'nan':
                return c._special('nan')
            if self.sp and o.sp:
                return c._special(self.sp if self.sp == o.sp else 'nan')
            return c._special(self.sp or o.sp)
        if self.d.d == o.d.d:
            return c._make(self.n + o.n, self.d)
        return c._make(self.n * o.d + o.n * self.d, self.d * o.d)

    __radd__ = __add__

    def __neg__(self):
        if self.sp:
            return type(self)._special({'nan': 'nan', 'inf': '-inf', '-inf': 'inf'}[self.sp])
        return type(self)._make(-self.n, self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        c = self._cls(o)
        if self.sp or o.sp:
            if self.sp == 'nan' or o.sp == 'nan':
                return c._special('nan')
            s = self._sign() * o._sign()
            return c._special('nan' if s == 0 else ('inf' if s > 0 else '-inf'))
        return c._make(self.n * o.n, self.d * o.d)

    __rmul__ = __mul__

    def _div(self, o):
        c = self._cls(o)
        if self.sp or o.sp:
            if self.sp == 'nan' or o.sp == 'nan' or (self.sp and o.sp):
                return c._special('nan')
            if o.sp:
                return c._make(ZERO)
            s = o._sign()
            if s == 0:
                raise ZeroDivisionError()
            s *= self._sign()
            return c._special('inf' if s > 0 else '-inf')
        return rdiv(c, self.n, self.d, o.n, o.d)

    def __truediv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self._div(o)

    def __rtruediv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o._div(self)

    def __abs__(self):
        if self.sp:
            return type(self)._special('nan' if self.sp == 'nan' else 'inf')
        if self.d.is_const():
            return type(self)._make(abs_poly(self.n), Poly.const(abs(self.d.const_val())))
        return type(self)._make(abs_poly(self.n), abs_poly(self.d))

    def __pow__(self, o, mod=None):
        if type(o) is SymInt:
            o = o.__index__()
        if _isinstance(o, SymReal) and o.is_const():
            o = _norm(o.const_val())
        if type(o) is _float:
            o = _norm(Fraction(o))
        if type(o) is _bool:
            o = _int(o)
        if type(o) is _int:
            if self.sp:
                if o == 0:
                    return type(self)._make(ONE)
                r = self
                if o < 0:
                    return type(self)._make(ZERO) if self.sp != 'nan' else self
                for _ in range(o - 1):
                    r = r * self
                return r
            if o >= 0:
                return type(self)._make(self.n.pow(o), self.d.pow(o))
            return rdiv(type(self), self.d.pow(-o), ONE, self.n.pow(-o), ONE)
        if type(o) is Fraction and o == Fraction(1, 2):
            return real_sqrt(self)
        if type(o) is Fraction and o == Fraction(-1, 2):
            return 1 / real_sqrt(self)
        if self.is_const() and _isinstance(o, Fraction):
            # perfect powers only
            v = self.const_val()
            for s in (1,):
                r = _nth_root(v, o.denominator)
                if r is not None:
                    return type(self)._make(Poly.const(r)) ** o.numerator
        raise Unsupported('power with exponent %r' % (o,))

    def __rpow__(self, o):
        if self.is_const():
            e = _norm(self.const_val())
            return type(self)._make(Poly.const(o) if type(o) is not SymInt else o.p) ** e
        raise Unsupported('symbolic exponent')

    def __floordiv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else real_floor(self._div(o))

    def __mod__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        q = self._div(o)
        return self - o * type(self)._make(to_int_poly(real_floor_int(q)))

    def __rmod__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o % self

    def __divmod__(self, o):
        return self // o, self % o

    # comparisons
    def _cmpop(self, o, op):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.sp or o.sp:
            if self.sp == 'nan' or o.sp == 'nan':
                return False
            a = {'inf': 1, '-inf': -1, None: 0}
            x, y = a[self.sp], a[o.sp]
            return x == y if op == 'eq' else (x < y if op == 'lt' else x <= y)
        if self.d.d == o.d.d:
            n, d = self.n - o.n, self.d
            if op == 'eq':
                return cmp_zero(n, 'eq')
            return type(self)._make(n, d)._cz(op) if not d.is_const() else cmp_zero(
                n if d.const_val() > 0 else -n, op)
        n = self.n * o.d - o.n * self.d
        if op == 'eq':
            return cmp_zero(n, 'eq')
        return type(self)._make(n, self.d * o.d)._cz(op)

    def __eq__(self, o):
        return self._cmpop(o, 'eq')

    def __ne__(self, o):
        r = self._cmpop(o, 'eq')
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        return self._cmpop(o, 'lt')

    def __le__(self, o):
        return self._cmpop(o, 'le')

    def __gt__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o._cmpop(self, 'lt')

    def __ge__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o._cmpop(self, 'le')

    def __bool__(self):
        if self.sp:
            return True
        return not _bool(self._cz('eq'))

    def __hash__(self):
        if self.sp:
            return hash(_float(self.sp))
        if self.is_const():
            return hash(self.const_val())
        return 0x51a7

    # conversions
    def __int__(self):
        r = real_trunc_int(self)
        if type(r) is SymInt:
            return r.__index__()
        return r

    __trunc__ = __int__

    def _vt_int(self):
        return real_trunc_int(self)

    def __float__(self):
        if self.sp:
            return _float(self.sp)
        if self.is_const():
            return _float(self.const_val())
        raise Unsupported('float() of a symbolic real')

    def __complex__(self):
        return complex(_float(self))

    def __round__(self, n=None):
        if n is not None:
            n = _conc(n)
            k = 10 ** n if n >= 0 else Fraction(1, 10 ** -n)
            return type(self)._make(to_int_poly(real_nint_int(self * k)), ONE) / k
        return real_nint_int(self)

    def __floor__(self):
        return real_floor_int(self)

    def __ceil__(self):
        return -real_floor_int(-self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return type(self)._make(ZERO)

    def conjugate(self):
        return self

    def __str__(self):
        from . import strs
        return strs.real_str(self)

    def __repr__(self):
        from . import strs
        if self.is_const() or self.sp:
            return "%s('%s')" % (self._name, self.sp or self.const_val())
        return strs.real_str(self)

    def __format__(self, spec):
        if spec == '':
            return str(self)
        from . import strs
        return strs.real_str(self, spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymFloat(SymReal):
    """float, taken as an exact real"""
    __slots__ = ()
    _name = 'float'

    @property
    def __class__(self):
        return _float

    def is_integer(self):
        return real_isint(self)


class MPF(SymReal):
    """what the repository's code sees as mpmath.mpf"""
    __slots__ = ()

    def sqrt(self):
        return real_sqrt(self)

    # the real class has an integer property of this name (the binary exponent)
    @property
    def exp(self):
        raise Unsupported('mpf.exp (binary exponent)')

    @property
    def man(self):
        raise Unsupported('mpf.man')

    def ae(self, o, *a):
        raise Unsupported('mpf.ae')


# unify: SymReal results of arithmetic must be MPF
def _cls(self, o):
    if type(self) is SymFloat and type(o) is SymFloat:
        return SymFloat
    return MPF


SymReal._cls = _cls


def _simplify_frac(n, d):
    """cancel common monomials and constant content; exact division when it is obvious"""
    # common monomial factor
    def common(p):
        it = iter(p.d)
        c = list(next(it))
        for m in it:
            mm = list(m)
            c2 = []
            for a in c:
                if a in mm:
                    mm.remove(a)
                    c2.append(a)
            c = c2
            if not c:
                break
        return c
    cn = common(n)
    if cn:
        cd = common(d)
        com = []
        for a in cn:
            if a in cd:
                cd.remove(a)
                com.append(a)
        if com:
            def strip(p):
                r = {}
                for m, k in p.d.items():
                    mm = list(m)
                    for a in com:
                        mm.remove(a)
                    r[tuple(mm)] = k
                return Poly(r)
            n, d = strip(n), strip(d)
    # proportional?
    if len(n.d) == len(d.d) and n.d.keys() == d.d.keys():
        m0 = next(iter(n.d))
        k = Fraction(n.d[m0]) / Fraction(d.d[m0])
        if all(Fraction(n.d[m]) == k * d.d[m] for m in n.d):
            return Poly.const(k), ONE
    # normalise constant content of the denominator
    q, s = d.content_normal()
    m0 = next(iter(d.d))
    k = Fraction(d.d[m0]) / Fraction(q.d[m0])
    if k != 1:
        n, d = n.scale(1 / k), q
    if d.is_const():
        c = d.const_val()
        return (n.scale(Fraction(1) / c), ONE) if c != 1 else (n, d)
    # exact division by a linear-in-something denominator is not attempted
    if len(d.d) <= 6 and len(n.d) <= 400:
        r = _exact_div(n, d)
        if r is not None:
            return r, ONE
    return n, d


def _exact_div(n, d):
    """n/d if it is a polynomial (lexicographic multivariate division), else None"""
    def lead(p):
        return max(p.d, key=lambda m: (len(m), m))
    ld = lead(d)
    cd = d.d[ld]
    q = {}
    r = dict(n.d)
    steps = 0
    while r:
        steps += 1
        if steps > 500:
            return None
        lr = max(r, key=lambda m: (len(m), m))
        mm = list(lr)
        for a in ld:
            if a not in mm:
                return None
            mm.remove(a)
        m = tuple(mm)
        c = _norm(Fraction(r[lr]) / cd)
        q[m] = c
        for dm, dc in d.d.items():
            t = tuple(sorted(m + dm))
            v = _norm(r.get(t, 0) - c * dc)
            if v:
                r[t] = v
            else:
                r.pop(t, None)
    return Poly(q)


MAX_DIGITS = 70
LIMIT = None         # or a function giving the limit


def _parse_real(val):
    t = type(val)
    if _isinstance(val, SymReal):
        return val.n, val.d, val.sp
    p = to_int_poly(val)
    if p is not None:
        return p, ONE, None
    if t is _float:
        if val != val:
            return ZERO, ONE, 'nan'
        if val in (_float('inf'), _float('-inf')):
            return ZERO, ONE, 'inf' if val > 0 else '-inf'
        return Poly.const(Fraction(val)), ONE, None
    if t is Fraction:
        return Poly.const(val), ONE, None
    if _isinstance(val, str):
        from . import strs
        r = strs.parse_real(val)
        return r
    if t is tuple and len(val) == 2:
        raise Unsupported('mpf from (man, exp)')
    import decimal
    if _isinstance(val, decimal.Decimal):
        return _parse_real(str(val))
    if hasattr(val, '_mpf_') or hasattr(val, '_mpmath_'):
        raise Unsupported('foreign mpf')
    raise TypeError('cannot create mpf from ' + repr(val))


def parse_decimal(s):
    """Fraction from decimal text; very long digit strings are cut to MAX_DIGITS significant decimals"""
    s = s.strip().replace('\n', '').replace(' ', '').lower()
    if s in ('inf', '+inf', 'infinity', '+infinity'):
        return ZERO, ONE, 'inf'
    if s in ('-inf', '-infinity'):
        return ZERO, ONE, '-inf'
    if s in ('nan', '+nan', '-nan'):
        return ZERO, ONE, 'nan'
    if '/' in s:
        a, b = s.split('/')
        return Poly.const(Fraction(_int(a), _int(b))), ONE, None
    m, e = s, 0
    if 'e' in s:
        m, ee = s.split('e')
        e = _int(ee)
    if '.' in m:
        i, f = m.split('.')
        f = f[:MAX_DIGITS if LIMIT is None else LIMIT()]
    else:
        i, f = m, ''
    if not (i.lstrip('+-') + f).isdigit():
        raise ValueError('could not convert string to float: %r' % s[:40])
    v = Fraction(_int(i + f if i not in ('', '+', '-') else i + '0' + f), 10 ** len(f))
    v *= Fraction(10) ** e
    return Poly.const(v), ONE, None


def _iroot(n, k):
    if n < 2:
        return n
    x = 1 << ((n.bit_length() + k - 1) // k)
    while True:
        y = ((k - 1) * x + n // x ** (k - 1)) // k
        if y >= x:
            return x
        x = y


def _nth_root(v, k):
    v = Fraction(v)
    if v < 0:
        return None
    a, b = _iroot(v.numerator, k), _iroot(v.denominator, k)
    if a ** k == v.numerator and b ** k == v.denominator:
        return Fraction(a, b)
    return None


def real_sqrt(x):
    """non-negative square root; complex for negative numbers is refused"""
    cls = type(x)
    if x.sp:
        if x.sp == '-inf':
            raise Unsupported('complex sqrt')
        return x
    if x.is_const():
        v = x.const_val()
        if v < 0:
            raise Unsupported('complex sqrt')
        r = _nth_root(v, 2)
        if r is not None:
            return cls._make(Poly.const(r))
    else:
        w = poly_sqrt(x.n) if x.n.degree() <= 8 else None
        v = w is not None and (ONE if x.d.is_const() and x.d.const_val() == 1 else poly_sqrt(x.d))
        if v:
            return abs(cls._make(w, v))
        if _bool(x._cz('lt')):
            raise Unsupported('complex sqrt')
    if x.d.is_const() and x.n.integer_valued() and x.d.const_val() == 1:
        return _int_sqrt(cls, x.n)
    if x.n.is_const() and x.d.integer_valued() and x.n.const_val() == 1:
        return 1 / _int_sqrt(cls, x.d)
    # sqrt(n/d) = s with s^2 * d = n ; use sqrt(n*d)/|d| to stay polynomial
    if not x.d.is_const():
        return real_sqrt(cls._make(x.n * x.d)) / abs(cls._make(x.d))
    return cls._make(Poly.atom(_sqrt_atom(x.n)))


def _sqrt_atom(p):
    # even powers of a single monomial
    k = ('sqrt', p.key())
    i = ATOMS.by_key.get(k)
    if i is None:
        def ev(f, p=p):
            v = f(p)
            return None if v is None else _nth_root(v, 2)
        a = ATOMS.get(k, name='sqrt!%d' % len(ATOMS.atoms), isint=False, lo=0, evalf=ev)

        def define(p=p, a=a):
            eng().use(p)
            pz = p.z()
            if p.integer_valued():
                pz = z3.ToReal(pz)
            return [a.z * a.z == pz]
        a.define = define
    else:
        a = ATOMS.atoms[i]
    eng().use_atom(a)
    return a


def _int_sqrt(cls, p):
    """square root of a non-negative integer polynomial: forks on perfect square"""
    k = ('isqrt', p.key())
    i = ATOMS.by_key.get(k)
    if i is None:
        lo, hi = p.bounds()

        def ev(f, p=p):
            v = f(p)
            return None if v is None or v < 0 else _iroot(v, 2)
        a = ATOMS.get(k, name='isqrt!%d' % len(ATOMS.atoms), isint=True, lo=0,
                      hi=_iroot(hi, 2) if hi is not None and hi >= 0 else None, evalf=ev)

        def define(p=p, a=a):
            eng().use(p)
            return [a.z * a.z <= p.z(), p.z() <= a.z * a.z + 2 * a.z]
        a.define = define
    else:
        a = ATOMS.atoms[i]
    eng().use_atom(a)
    ap = Poly.atom(a)
    if _bool(cmp_zero(ap * ap - p, 'eq')):
        return cls._make(ap)
    s = _sqrt_atom(p)
    s.irr = True
    return cls._make(Poly.atom(s))


def _has_irr(p):
    at = ATOMS.atoms
    return [i for i in p.atoms() if at[i].irr]


_FLOORS = {}                    # polynomials up to a positive factor -> [(factor, floor atom)]


def _floor_family(n, a):
    ms = sorted(n.d)
    lead = abs(Fraction(n.d[ms[-1]]))
    k = n.scale(1 / lead).key()
    fam = _FLOORS.setdefault(k, [])
    fam.append((lead, a))
    return fam, lead


def real_floor_int(x):
    """floor as an int"""
    if x.sp:
        raise (ValueError if x.sp == 'nan' else OverflowError)('cannot convert %s to int' % x.sp)
    if x.is_const():
        v = x.const_val()
        return v.numerator // v.denominator
    n, d = x.n, x.d
    if d.is_const():
        # clear rational coefficients if all atoms are integer: integer division
        den = 1
        from math import gcd
        for c in n.d.values():
            if type(c) is Fraction:
                den = den * c.denominator // gcd(den, c.denominator)
        ni = n.scale(den)
        if ni.integer_valued():
            if den == 1:
                return mkint(ni)
            return mkint(divmod_polys(ni, Poly.const(den))[0])
    elif n.integer_valued() and d.integer_valued():
        return mkint(divmod_polys(n, d)[0])
    else:
        import math
        (nl, nh), (dl, dh) = n.bounds(), d.bounds()
        if None not in (nl, nh, dl, dh) and (dl > 0 or dh < 0):
            q = [math.floor(Fraction(u) / Fraction(v)) for u in (nl, nh) for v in (dl, dh)]
            if min(q) == max(q):
                return q[0]
    # split off the integer-valued part
    ip, rp = {}, {}
    if d.is_const():
        at = ATOMS.atoms
        for m, c in n.d.items():
            if type(c) is int and all(at[i].isint for i in m):
                ip[m] = c
            else:
                rp[m] = c
        n = Poly(rp)
    k = ('floor', n.key(), d.key())
    i = ATOMS.by_key.get(k)
    if i is None:
        import math
        if d.is_const():
            lo, hi = n.bounds()
            if lo is not None and hi is not None and math.floor(Fraction(lo)) == math.floor(Fraction(hi)):
                return mkint(Poly(ip) + Poly.const(math.floor(Fraction(lo))))

        def ev(f, n=n, d=d):
            a, b = f(n), f(d)
            return None if a is None or b is None else math.floor(Fraction(a) / Fraction(b))
        lo, hi = n.bounds() if d.is_const() else (None, None)
        a = ATOMS.get(k, name='floor!%d' % len(ATOMS.atoms), isint=True,
                      lo=None if lo is None else math.floor(Fraction(lo)),
                      hi=None if hi is None else math.floor(Fraction(hi)), evalf=ev)

        fam, lead = _floor_family(n, a) if d.is_const() else ((), None)

        def define(n=n, d=d, a=a, fam=fam, lead=lead):
            eng().use(n)
            eng().use(d)
            az = z3.ToReal(a.z)
            nz, dz = _rz(n), _rz(d)
            if d.is_const():
                out = [az <= nz, nz < az + 1]
                # lemma: floor(k*x) div k = floor(x)
                for c, b in fam:
                    if b is a or b.id not in eng().defined:
                        continue
                    r = c / lead if c > lead else lead / c
                    if r.denominator == 1:
                        f, g = (a.z, b.z) if c > lead else (b.z, a.z)
                        out += [f * r.numerator <= g, g <= f * r.numerator + (r.numerator - 1)]
                return out
            return [z3.If(dz > 0, z3.And(az * dz <= nz, nz < (az + 1) * dz),
                          z3.And(az * dz >= nz, nz > (az + 1) * dz))]
        a.define = define
        a.deps = [n, d]
    else:
        a = ATOMS.atoms[i]
    eng().use_atom(a)
    return mkint(Poly(ip) + Poly.atom(a))


def _rz(p):
    z = p.z()
    return z3.ToReal(z) if p.integer_valued() else z


def real_floor(x):
    return type(x)._make(to_int_poly(real_floor_int(x)))


def real_min(x, y):
    """the smaller of two numbers of high degree, left without a definition: the solver may give it any value, so what is
    shown holds for the true one too (a violation has to be confirmed by the real code anyway)"""
    k = ('min', x.n.key(), x.d.key(), y.n.key(), y.d.key())

    def ev(f):
        v = [f(p) for p in (x.n, x.d, y.n, y.d)]
        return None if None in v or not v[1] or not v[3] else min(Fraction(v[0]) / v[1], Fraction(v[2]) / v[3])
    a = ATOMS.get(k, name='min!%d' % len(ATOMS.atoms), isint=False, evalf=ev)
    eng().use_atom(a)
    return type(x)._make(Poly.atom(a))


def real_trunc_int(x):
    if x.sp:
        raise (ValueError if x.sp == 'nan' else OverflowError)('cannot convert %s to int' % x.sp)
    if x.is_const():
        return _int(x.const_val())
    if _bool(x._cz('lt')):
        return -real_floor_int(-x)
    return real_floor_int(x)


def real_nint_int(x):
    """nearest integer, ties to even"""
    if x.sp:
        raise (ValueError if x.sp == 'nan' else OverflowError)('cannot convert %s to int' % x.sp)
    if x.is_const():
        return round(x.const_val())
    f = real_floor_int(x + Fraction(1, 2))
    fr = type(x)._make(to_int_poly(f))
    # tie: x + 1/2 == f, and f odd -> f - 1
    if _bool((x + Fraction(1, 2)) == fr):
        if _bool(f % 2 == 1):
            return f - 1
    return f


def real_isint(x):
    if x.sp:
        return False
    if x.is_const():
        return x.const_val().denominator == 1
    q = poly_divexact(x.n, x.d)
    if q is not None and q.integer_valued():
        return True
    irr = _has_irr(x.n)
    if irr and not _has_irr(x.d):
        # n = A + B*s with s the irrational root of an integer, A, B, d rational-valued: integer only if B == 0
        if len(irr) == 1:
            s = irr[0]
            a, b = {}, {}
            ok = True
            for m, c in x.n.d.items():
                k = m.count(s)
                if k == 0:
                    a[m] = c
                elif k == 1:
                    mm = list(m)
                    mm.remove(s)
                    b[tuple(mm)] = c
                else:
                    ok = False
            at = ATOMS.atoms
            rat = all(at[i].isint for i in (Poly(a).atoms() | Poly(b).atoms() | x.d.atoms()))
            if ok and rat:
                if not _bool(cmp_zero(Poly(b), 'eq')):
                    return False
                return real_isint(type(x)._make(Poly(a), x.d))
        raise Unsupported('integrality of an irrational expression')
    f = real_floor_int(x)
    return x == type(x)._make(to_int_poly(f))


def as_real(v, cls=None):
    cls = cls or MPF
    if _isinstance(v, SymReal):
        return v
    return cls(v)
