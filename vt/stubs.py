"""Models of the third-party (and a few stdlib) modules the repository imports. Anything not modelled raises
Unsupported, which makes a run inconclusive rather than successful."""
import sys
import types
import math as _math
from fractions import Fraction
from . import core, num, strs, shims, sympoly
from .core import (Unsupported, Poly, ONE, ZERO, ATOMS, sym_and, sym_or, sym_not, SymBool, cmp_zero)
from .num import (SymInt, SymReal, SymFloat, MPF, mkint, to_int_poly, real_floor_int, real_nint_int, real_isint,
                  real_sqrt, as_real, _conc)


class Stub(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        raise Unsupported('%s.%s is not modelled' % (self.__name__, name))


def mkmod(_modname, **kw):
    m = Stub(_modname)
    m.__dict__.update(kw)
    return m


# ------------------------------------------------------------------ uninterpreted real functions
def uf(name, x, cls=MPF, lo=None, hi=None):
    """application of an uninterpreted function; equal arguments (as polynomials) give the same symbol"""
    k = ('uf', name, x.n.key(), x.d.key())
    i = ATOMS.by_key.get(k)
    if i is None:
        a = ATOMS.get(k, name='%s!%d' % (name, len(ATOMS.atoms)), isint=False, lo=lo, hi=hi)
        a.define = lambda: []
    else:
        a = ATOMS.atoms[i]
    core.ENGINE.use_atom(a)
    core.ENGINE.uf_used = True
    return cls._make(Poly.atom(a))


def _fn(name, f0=None, lo=None, hi=None):
    def f(x, **kw):
        x = as_real(x)
        if x.sp:
            if name == 'exp':
                return x if x.sp != '-inf' else MPF(0)
            return MPF('nan') if x.sp != 'inf' or name != 'log' else x
        if x.is_const() and x.const_val() == 0 and f0 is not None:
            return MPF(f0)
        if x.is_const():
            enc = _enclose(name, x.const_val())
            return uf(name, x, lo=enc[0], hi=enc[1]) if enc else uf(name, x, lo=lo, hi=hi)
        return uf(name, x, lo=lo, hi=hi)
    f.__name__ = name
    return f


def _enclose(name, v):
    """rational enclosure of the function at a constant"""
    if name not in ('sin', 'cos', 'exp', 'log') or abs(v) > (300 if name == 'exp' else 10 ** 30) or v.denominator.bit_length() > 600 or v.numerator.bit_length() > 600:
        return None
    import mpmath
    with mpmath.workdps(200):
        r = getattr(mpmath, name)(mpmath.mpf(v.numerator) / v.denominator)
        s, m, e, _ = r._mpf_
        q = Fraction(-m if s else m) * Fraction(2) ** e
        # 40 significant digits
        d = 0 if q == 0 else len(str(abs(q.numerator))) - len(str(q.denominator))
        w = Fraction(10) ** (d - 40)
        import math
        return (math.floor(q / w) - 1) * w, (math.floor(q / w) + 2) * w


def mp_sin(x, **kw):
    return _fn('sin', 0, -1, 1)(x)


def mp_cos(x, **kw):
    return _fn('cos', 1, -1, 1)(x)


def mp_exp(x, **kw):
    x = as_real(x)
    r = _fn('exp', 1, 0)(x)
    if r.sp is None and not r.is_const():
        core.ENGINE.add(r.n.z() > 0)
    return r


def mp_log(x, base=None, **kw):
    x = as_real(x)
    if base is not None:
        return mp_log(x) / mp_log(base)
    if not x.sp:
        if bool(x == 0):
            return MPF('-inf')
        if bool(x < 0):
            raise Unsupported('complex logarithm')
        if x.is_const() and x.const_val() == 1:
            return MPF(0)
    r = _fn('log')(x)
    if r.sp is None and not x.sp and not x.is_const():
        for c in (core.sym_iff(x > 1, r > 0), core.sym_iff(x < 1, r < 0)):
            if isinstance(c, SymBool):
                core.ENGINE.add(c.zexpr())
    return r


def mp_tan(x, **kw):
    return mp_sin(x) / mp_cos(x)


def mp_cot(x, **kw):
    return mp_cos(x) / mp_sin(x)


def mp_sqrt(x, **kw):
    x = as_real(x)
    if x.sp is None and bool(x < 0):
        raise Unsupported('complex square root')
    return real_sqrt(x)


def isnormal(x):
    if isinstance(x, SymReal):
        if x.sp:
            return False
        return sym_not(x == 0)
    if isinstance(x, int):
        return sym_not(x == 0)
    if isinstance(x, float):
        return x == x and x not in (float('inf'), float('-inf')) and x != 0
    raise TypeError('isnormal() needs a number')


def isnan(x):
    if isinstance(x, SymReal):
        return x.sp == 'nan'
    if isinstance(x, float):
        return x != x
    if isinstance(x, int):
        return False
    raise TypeError('isnan() needs a number')


def isinf(x):
    if isinstance(x, SymReal):
        return x.sp in ('inf', '-inf')
    if isinstance(x, float):
        return x in (float('inf'), float('-inf'))
    if isinstance(x, int):
        return False
    raise TypeError('isinf() needs a number')


def isfinite(x):
    return not (isnan(x) or isinf(x))


def isint(x, gaussian=False):
    if isinstance(x, int):
        return True
    if isinstance(x, float) and type(x) is float:
        return x == x and x not in (float('inf'), float('-inf')) and x == _math.floor(x)
    if isinstance(x, SymReal):
        return real_isint(x)
    if isinstance(x, Fraction):
        return x.denominator == 1
    raise TypeError('isint() needs a number')


def _mpwrap(f):
    def g(x, **kw):
        x = as_real(x)
        if x.sp:
            return x
        return MPF(f(x))
    return g


mp_floor = _mpwrap(real_floor_int)
mp_ceil = _mpwrap(lambda x: -real_floor_int(-x))
mp_nint = _mpwrap(real_nint_int)


def mp_frac(x):
    return as_real(x) - mp_floor(x)


def nstr(x, n=6, strip_zeros=True, min_fixed=None, max_fixed=None, **kw):
    if isinstance(x, SymReal):
        n = _conc(n)
        fixed = min_fixed is not None and isinstance(min_fixed, (int, float, SymReal)) and \
            bool(as_real(min_fixed) <= -40 if not (isinstance(min_fixed, SymReal) and min_fixed.sp) else
                 min_fixed.sp == '-inf')
        return strs.real_str(x, digits=n, strip=strip_zeros, fixed=fixed)
    if isinstance(x, int):
        return nstr(MPF(x), n, strip_zeros, min_fixed, max_fixed)
    if isinstance(x, float):
        return nstr(MPF(x), n, strip_zeros, min_fixed, max_fixed)
    return str(x)


class MPContext(object):
    def __init__(self):
        object.__setattr__(self, 'd', {'dps': 15})

    def __setattr__(self, k, v):
        if k == 'dps':
            self.d['dps'] = v
        elif k == 'prec':
            self.d['dps'] = _conc(v) * 3 // 10
        else:
            raise Unsupported('mp.%s = ...' % k)

    def __getattr__(self, k):
        if k == 'dps':
            return self.d['dps']
        if k == 'prec':
            return (_conc(self.d['dps']) * 33219) // 10000 + 4
        if k in MPNAMES:
            return MPNAMES[k]
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('mp.%s is not modelled' % k)


class _WorkDps(object):
    def __init__(self, mp, n, add=False):
        self.mp, self.n, self.add = mp, n, add

    def __enter__(self):
        self.save = self.mp.dps
        self.mp.dps = self.save + self.n if self.add else self.n

    def __exit__(self, *a):
        self.mp.dps = self.save

    def __call__(self, f):
        def g(*a, **k):
            with self:
                return f(*a, **k)
        return g


def mpmathify(x, **kw):
    return as_real(x)


PI100 = '3.1415926535897932384626433832795028841971693993751058209749445923078164'
E100 = '2.7182818284590452353602874713526624977572470936999595749669676277240766'

MPNAMES = {'mpf': MPF, 'isnormal': isnormal, 'isnan': isnan, 'isinf': isinf, 'isfinite': isfinite, 'isint': isint,
           'sin': mp_sin, 'cos': mp_cos, 'tan': mp_tan, 'cot': mp_cot, 'exp': mp_exp, 'log': mp_log, 'ln': mp_log,
           'sqrt': mp_sqrt, 'floor': mp_floor, 'ceil': mp_ceil, 'nint': mp_nint, 'frac': mp_frac, 'nstr': nstr,
           'fabs': lambda x: abs(as_real(x)), 'mpmathify': mpmathify, 'convert': mpmathify,
           'power': lambda x, y: as_real(x) ** y, 'sign': lambda x: MPF(as_real(x)._sign()),
           'fsum': lambda it, **k: sum(it, MPF(0)), 'binomial': lambda n, k: MPF(_math.comb(_conc(n), _conc(k))),
           'log10': lambda x: mp_log(x) / mp_log(MPF(10)),
           'fmod': lambda a, b: as_real(a) % b, 'mag': None}
del MPNAMES['mag']


def mpmath_module():
    mp = MPContext()
    d = dict(MPNAMES)
    d.update(mp=mp, inf=MPF('inf'), ninf=MPF('-inf'), nan=MPF('nan'), pi=MPF(PI100), e=MPF(E100), eps=MPF(0),
             workdps=lambda n: _WorkDps(mp, n), extradps=lambda n: _WorkDps(mp, n, True))
    MPNAMES_LOCAL = {k: d[k] for k in ('inf', 'ninf', 'nan', 'pi', 'e', 'workdps', 'extradps')}
    m = mkmod('mpmath', **d)
    cls = type('MPContext', (MPContext,), {k: (staticmethod(v) if callable(v) and not isinstance(v, SymReal) else v)
                                           for k, v in MPNAMES_LOCAL.items()})
    mp2 = cls()
    m.mp = mp2
    m.workdps = lambda n: _WorkDps(mp2, n)
    m.extradps = lambda n: _WorkDps(mp2, n, True)
    m.__path__ = []
    return m


# ------------------------------------------------------------------ decimal
class DEC(SymReal):
    """decimal.Decimal, taken as an exact number"""
    __slots__ = ()
    _name = 'Decimal'

    def _cls(self, o):
        return DEC

    def _co(self, o):
        if isinstance(o, MPF) or isinstance(o, float):
            return None
        return SymReal._co(self, o)

    def is_normal(self):
        return isnormal(self)

    def is_zero(self):
        return False if self.sp else self == 0

    def is_nan(self):
        return self.sp == 'nan'

    def is_infinite(self):
        return self.sp in ('inf', '-inf')

    def is_finite(self):
        return self.sp is None

    def sqrt(self, *a):
        return real_sqrt(self)

    def to_eng_string(self, *a):
        return strs.real_str(self)

    def ln(self, *a):
        r = mp_log(MPF._make(self.n, self.d, self.sp))
        return DEC._make(r.n, r.d, r.sp)

    def exp(self, *a):
        r = mp_exp(MPF._make(self.n, self.d, self.sp))
        return DEC._make(r.n, r.d, r.sp)

    def to_integral_value(self, *a, **k):
        return DEC(real_nint_int(self))


# ------------------------------------------------------------------ fractions
class FRAC(SymReal):
    __slots__ = ()
    _name = 'Fraction'

    def __new__(cls, a=0, b=None):
        if b is None:
            if isinstance(a, str):
                v = Fraction(a)
                return cls._make(Poly.const(v))
            return SymReal.__new__(cls, a)
        x = SymReal.__new__(cls, a)
        return x / b

    def _cls(self, o):
        return SymFloat if isinstance(o, (SymFloat, float)) else (MPF if isinstance(o, MPF) else FRAC)

    @property
    def numerator(self):
        if self.is_const():
            return self.const_val().numerator
        raise Unsupported('numerator of a symbolic fraction')

    @property
    def denominator(self):
        if self.is_const():
            return self.const_val().denominator
        raise Unsupported('denominator of a symbolic fraction')


# ------------------------------------------------------------------ math
def _sym(*a):
    return any(isinstance(x, (SymInt, SymReal, SymBool)) or type(x) in (SymInt, SymBool) for x in a)


def _floatres(f, name):
    def g(*a):
        if _sym(*a):
            if all(not isinstance(x, SymReal) or x.is_const() for x in a) and not any(type(x) is SymInt for x in a):
                return f(*[float(x) if isinstance(x, SymReal) else x for x in a])
            if name == 'sqrt':
                x = a[0]
                x = SymFloat._from(x.p) if type(x) is SymInt else SymFloat._make(x.n, x.d, x.sp)
                if bool(x < 0):
                    raise ValueError('math domain error')
                return real_sqrt(x)
            if name in ('sin', 'cos', 'exp', 'tan'):
                r = MPNAMES[name](as_real(a[0]))
                return SymFloat._make(r.n, r.d, r.sp)
            if name == 'log':
                x = as_real(a[0])
                if bool(x <= 0):
                    raise ValueError('math domain error')
                r = mp_log(x) if len(a) == 1 else mp_log(x) / mp_log(as_real(a[1]))
                return SymFloat._make(r.n, r.d, r.sp)
            raise Unsupported('math.%s of a symbolic value' % name)
        return f(*a)
    return g


def m_gcd(*a):
    r = 0
    for x in a:
        b = x
        r, b = abs(r), abs(b)
        while bool(b != 0):
            r, b = b, r % b
    return abs(r)


def m_floor(x):
    if isinstance(x, SymReal):
        return real_floor_int(x)
    if type(x) is SymInt:
        return x
    return _math.floor(x)


def m_ceil(x):
    if isinstance(x, SymReal):
        return -real_floor_int(-x)
    if type(x) is SymInt:
        return x
    return _math.ceil(x)


def m_trunc(x):
    if isinstance(x, SymReal):
        return num.real_trunc_int(x)
    if type(x) is SymInt:
        return x
    return _math.trunc(x)


def m_isqrt(n):
    if type(n) is SymInt:
        if bool(n < 0):
            raise ValueError('isqrt() argument must be nonnegative')
        r = num._int_sqrt(SymFloat, n.p)
        # the atom behind it
        i = ATOMS.by_key[('isqrt', n.p.key())]
        return mkint(Poly.atom(ATOMS.atoms[i]))
    return _math.isqrt(n)


def m_prod(it, start=1):
    r = start
    for x in it:
        r = r * x
    return r


def math_module():
    d = {}
    for k in dir(_math):
        v = getattr(_math, k)
        if k.startswith('__'):
            continue
        d[k] = _floatres(v, k) if callable(v) else v
    d.update(gcd=m_gcd, floor=m_floor, ceil=m_ceil, trunc=m_trunc, isqrt=m_isqrt, prod=m_prod,
             fabs=lambda x: abs(x) if _sym(x) else _math.fabs(x), fsum=lambda it: sum(it),
             comb=lambda n, k: _math.comb(_conc(n), _conc(k)), perm=lambda n, k=None: _math.perm(_conc(n), k),
             factorial=lambda n: _math.factorial(_conc(n)),
             isnan=lambda x: isnan(x) if isinstance(x, SymReal) else _math.isnan(_conc(x)),
             isinf=lambda x: isinf(x) if isinstance(x, SymReal) else _math.isinf(_conc(x)),
             isfinite=lambda x: isfinite(x) if isinstance(x, SymReal) else _math.isfinite(_conc(x)),
             pow=lambda x, y: (x if isinstance(x, SymReal) else SymFloat(x)) ** y if _sym(x, y) else _math.pow(x, y),
             fmod=lambda x, y: Unsupported, copysign=_floatres(_math.copysign, 'copysign'))
    del d['fmod']
    m = mkmod('math', **d)
    return m


# ------------------------------------------------------------------ numpy
class NPFloat(SymFloat):
    """numpy.float64"""
    __slots__ = ()

    def _cls(self, o):
        return NPFloat if isinstance(o, SymFloat) or not isinstance(o, SymReal) else MPF

    def round(self, decimals=0):
        return round_np(self, decimals)

    def __round__(self, n=None):
        if n is None:
            return real_nint_int(self)
        return round_np(self, n)


def round_np(x, n=0):
    k = 10 ** n
    return NPFloat._make(to_int_poly(real_nint_int(x * k)), ONE) / k


class NPComplex(object):
    def __init__(self, re, im):
        self.real, self.imag = re, im

    def __abs__(self):
        raise Unsupported('modulus of a complex root')

    def __repr__(self):
        return 'complex(%r, %r)' % (self.real, self.imag)


def _npf(x):
    if isinstance(x, SymReal):
        return NPFloat._make(x.n, x.d, x.sp)
    return NPFloat(x)


class NPArray(list):
    @property
    def real(self):
        return NPArray([x.real for x in self])

    @property
    def imag(self):
        return NPArray([x.imag for x in self])

    def tolist(self):
        return list(self)

    @property
    def size(self):
        return len(self)

    def _ew(self, o, f):
        if isinstance(o, (list, tuple)):
            return NPArray([f(x, y) for x, y in zip(self, o)])
        return NPArray([f(x, o) for x in self])

    def __lt__(self, o):
        return self._ew(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._ew(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._ew(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._ew(o, lambda a, b: a >= b)

    def __sub__(self, o):
        return self._ew(o, lambda a, b: a - b)

    def __add__(self, o):
        return self._ew(o, lambda a, b: a + b)

    def __mul__(self, o):
        return self._ew(o, lambda a, b: a * b)

    def __and__(self, o):
        return self._ew(o, lambda a, b: sym_and(a, b))

    def __or__(self, o):
        return self._ew(o, lambda a, b: sym_or(a, b))

    def __abs__(self):
        return NPArray([abs(x) for x in self])

    def round(self, n=0):
        return NPArray([x.round(n) for x in self])

    def any(self):
        return any(bool(x) for x in self)

    def all(self):
        return all(bool(x) for x in self)

    def __getitem__(self, i):
        if isinstance(i, list):
            return NPArray([x for x, k in zip(self, i) if bool(k)])
        r = list.__getitem__(self, i)
        return NPArray(r) if isinstance(i, slice) else r

    __hash__ = None


def np_roots(p):
    """exact roots of polynomials of degree <= 2 after removing powers of x (numpy's are floating-point
    approximations of these)"""
    p = list(p)
    while p and bool(p[0] == 0):
        p.pop(0)
    nz = 0
    while p and bool(p[-1] == 0):
        p.pop()
        nz += 1
    out = []
    if len(p) == 2:
        out = [_npf(-(SymFloat(p[1]) / p[0]))]
    elif len(p) == 3:
        a, b, c = [SymFloat(v) for v in p]
        disc = b * b - 4 * a * c
        if bool(disc < 0):
            s = real_sqrt(-disc)
            out = [NPComplex(_npf(-b / (2 * a)), _npf(s / (2 * a))), NPComplex(_npf(-b / (2 * a)), _npf(-s / (2 * a)))]
        else:
            s = real_sqrt(disc)
            out = [_npf((-b + s) / (2 * a)), _npf((-b - s) / (2 * a))]
    elif len(p) > 3:
        if all(isinstance(v, (int, float)) or (isinstance(v, SymReal) and v.is_const()) for v in p):
            import numpy
            rs = numpy.roots([float(v) for v in p])
            if numpy.iscomplexobj(rs):
                out = [NPComplex(_npf(Fraction(float(r.real))), _npf(Fraction(float(r.imag)))) for r in rs]
            else:
                out = [_npf(Fraction(float(r))) for r in rs]
            return NPArray(out + ([NPComplex(_npf(0), _npf(0))] if numpy.iscomplexobj(rs) else [_npf(0)]) * nz)
        # try to split off linear factors is not attempted
        raise Unsupported('numpy.roots of degree %d' % (len(p) - 1))
    if not p:
        return NPArray([])
    out = out + [_npf(0)] * nz
    if any(isinstance(r, NPComplex) for r in out):
        out = [r if isinstance(r, NPComplex) else NPComplex(r, _npf(0)) for r in out]
    return NPArray(out)


def _arr1(f):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple)):
            return NPArray([f(y, *a, **k) for y in x])
        return f(x, *a, **k)
    return g


def numpy_module():
    rnd = _arr1(lambda x, n=0: round_np(_npf(x), n))
    return mkmod('numpy', roots=np_roots, abs=_arr1(abs), absolute=_arr1(abs), fabs=_arr1(abs), round=rnd, around=rnd,
                 rint=rnd, round_=rnd, real=_arr1(lambda x: x.real), imag=_arr1(lambda x: x.imag),
                 any=lambda x: any(bool(y) for y in x), all=lambda x: all(bool(y) for y in x),
                 array=lambda x, **k: NPArray(x), asarray=lambda x, **k: NPArray(x), ndarray=NPArray,
                 isreal=_arr1(lambda x: x.imag == 0), isclose=None, inf=float('inf'), nan=float('nan'), pi=_math.pi,
                 floor=_arr1(lambda x: _npf(real_floor_int(_npf(x)))),
                 ceil=_arr1(lambda x: _npf(-real_floor_int(-_npf(x)))))


# ------------------------------------------------------------------ scipy
def binom(n, k):
    n, k = _conc(n), _conc(k)
    if n > 30:
        raise Unsupported('scipy.special.binom is inexact beyond 30')
    return float(_math.comb(n, k)) if 0 <= k <= n else 0.0


def scipy_comb(n, k, exact=False, **kw):
    return _math.comb(_conc(n), _conc(k)) if exact else binom(n, k)


def scipy_modules():
    sp = mkmod('scipy.special', binom=binom, comb=scipy_comb)
    st = mkmod('scipy.stats')
    mi = mkmod('scipy.misc', comb=scipy_comb)
    s = mkmod('scipy', special=sp, stats=st, misc=mi)
    s.__path__ = []
    return {'scipy': s, 'scipy.special': sp, 'scipy.stats': st, 'scipy.misc': mi}


# ------------------------------------------------------------------ progressbar (raises like the real one)
def progressbar_fn(iterator, min_value=0, max_value=None, widgets=None, prefix='', suffix='', **kw):
    if max_value is None:
        try:
            max_value = shims.v_len(iterator)
        except TypeError:
            max_value = None
    if max_value is not None and bool(max_value < min_value):
        raise ValueError('Max value needs to be bigger than the min value')
    return _pb_iter(iterator, max_value)


def _pb_iter(it, mx):
    i = 0
    for x in it:
        if mx is not None and bool(mx < i):
            raise ValueError('Value %s is out of range, should be between 0 and %s' % (i, mx))
        yield x
        i += 1


class PBar(object):
    def __init__(self, min_value=0, max_value=None, **kw):
        self.mx = max_value

    def __call__(self, it, max_value=None):
        return progressbar_fn(it, max_value=max_value if max_value is not None else self.mx)

    def start(self, *a, **k):
        return self

    def update(self, value=None, **k):
        if value is not None and self.mx is not None and bool(value > self.mx):
            raise ValueError('Value out of range')

    def finish(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# ------------------------------------------------------------------ dill / pickle
import pickle as _pickle
import io as _io

REG = []
REGIDX = {}


def _reg(x):
    k = id(x)
    i = REGIDX.get(k)
    if i is None:
        i = len(REG)
        REG.append(x)
        REGIDX[k] = i
    return i


class _Pickler(_pickle._Pickler):
    def persistent_id(self, o):
        t = type(o)
        if t in (SymInt, SymBool, SymRangeT, types.FunctionType, types.LambdaType, types.BuiltinFunctionType,
                 types.ModuleType, Stub) or isinstance(o, (SymReal, sympoly.SPoly)) or t is strs.DecStr:
            if t is types.BuiltinFunctionType and getattr(o, '__self__', None) is not None and \
                    not isinstance(o.__self__, types.ModuleType):
                return None
            return _reg(o)
        if isinstance(o, type) and (o.__module__ or '').startswith(('vt.', 'vt')):
            return _reg(o)
        if t is types.GeneratorType:
            raise TypeError("cannot pickle 'generator' object")
        return None


class _Unpickler(_pickle._Unpickler):
    def persistent_load(self, pid):
        return REG[pid]


SymRangeT = shims.SymRange


def p_dumps(obj, protocol=None, **kw):
    f = _io.BytesIO()
    _Pickler(f, 4).dump(obj)
    return f.getvalue()


def p_loads(b, **kw):
    try:
        return _Unpickler(_io.BytesIO(b)).load()
    except IndexError:
        raise EOFError('Ran out of input')


def p_dump(obj, f, protocol=None, **kw):
    f.write(p_dumps(obj))


def p_load(f, **kw):
    return p_loads(f.read())


def pickle_module(name):
    return mkmod(name, dump=p_dump, dumps=p_dumps, load=p_load, loads=p_loads, HIGHEST_PROTOCOL=4,
                 DEFAULT_PROTOCOL=3, PickleError=_pickle.PickleError, PicklingError=_pickle.PicklingError,
                 UnpicklingError=_pickle.UnpicklingError)


# ------------------------------------------------------------------ pylatex
class LDoc(object):
    """records what a pylatex document was given"""
    docs = []

    def __init__(self, *a, **k):
        self.items = []
        LDoc.docs.append(self)

    def append(self, x):
        self.items.append(x)

    def create(self, child):
        return _LCtx(self, child)

    def generate_pdf(self, filename=None, **k):
        self.filename = filename

    generate_tex = generate_pdf

    def add(self, x):
        self.append(x)

    extend = lambda self, xs: [self.append(x) for x in xs]


class _LCtx(object):
    def __init__(self, doc, child):
        self.doc, self.child = doc, child

    def __enter__(self):
        return self.child

    def __exit__(self, et, ev, tb):
        self.doc.items.append(self.child)
        return False


class LNode(object):
    def __init__(self, *a, **k):
        self.args, self.kw, self.items = a, k, []

    def append(self, x):
        self.items.append(x)

    def create(self, child):
        return _LCtx(self, child)


class LSection(LNode):
    pass


class LAlignat(LNode):
    pass


# ------------------------------------------------------------------ functools / collections
import functools as _functools
import collections as _collections


def lru_cache(maxsize=128, typed=False):
    def deco(f):
        store = shims.SymDict()

        @_functools.wraps(f)
        def g(*a, **k):
            key = (a, tuple(sorted(k.items())))
            if key in store:
                return store[key]
            r = f(*a, **k)
            store[key] = r
            return r
        g.cache_clear = store.clear
        g.cache_info = lambda: None
        return g
    if callable(maxsize) and not isinstance(maxsize, int):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


def functools_module():
    d = {k: getattr(_functools, k) for k in dir(_functools) if not k.startswith('__')}
    d.update(lru_cache=lru_cache, cache=lru_cache(None) if False else (lambda f: lru_cache(None)(f)))
    return mkmod('functools', **d)


def collections_module():
    d = {k: getattr(_collections, k) for k in dir(_collections) if not k.startswith('__')}
    d.update(defaultdict=shims.SymDefaultDict, OrderedDict=shims.SymDict, Counter=shims.SymCounter)
    m = mkmod('collections', **d)
    m.__path__ = []
    return m


def fraction_module():
    return mkmod('fractions', Fraction=FRAC, gcd=m_gcd)


class _DecCtx(object):
    prec = 28


def decimal_module():
    ctx = _DecCtx()
    return mkmod('decimal', Decimal=DEC, getcontext=lambda: ctx, ROUND_DOWN='ROUND_DOWN',
                 DivisionByZero=ZeroDivisionError, InvalidOperation=type('InvalidOperation', (ArithmeticError,), {}),
                 DivisionUndefined=ZeroDivisionError, DivisionImpossible=ArithmeticError)


def sympy_module():
    return mkmod('sympy', symbols=sympoly.symbols, Symbol=sympoly.symbols, poly=sympoly.poly, Poly=sympoly.Poly,
                 ZZ='ZZ', QQ='QQ', gcd=lambda a, b: a.gcd(b), div=lambda a, b, **k: a.div(b),
                 Integer=lambda x: x, Rational=lambda a, b=1: sympoly._rat(a) / b, floor=m_floor, ceiling=m_ceil,
                 PolynomialError=sympoly.PolynomialError)


def all_stubs(extra=None):
    d = {'mpmath': mpmath_module(), 'numpy': numpy_module(),
         'progressbar': mkmod('progressbar', progressbar=progressbar_fn, ProgressBar=PBar, UnknownLength=None),
         'dill': pickle_module('dill'), 'pickle': pickle_module('pickle'), 'cPickle': pickle_module('cPickle'),
         'pylatex': mkmod('pylatex', Document=LDoc, Section=LSection, Alignat=LAlignat),
         'sympy': sympy_module(), 'math': math_module(), 'fractions': fraction_module(),
         'decimal': decimal_module(), 'functools': functools_module(), 'collections': collections_module()}
    d.update(scipy_modules())
    if extra:
        d.update(extra)
    return d
