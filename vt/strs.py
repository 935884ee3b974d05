"""Strings that mention symbolic numbers. An integer (or whole real) is represented inside an ordinary str by one
private-use character; the decimal expansion of a real is a DecStr, which knows how prefixes of expansions compare."""
import re
from fractions import Fraction
from . import core
from .core import Poly, ONE, Unsupported, cmp_zero, sym_and, sym_or, sym_not, SymBool
from . import num
from .num import SymInt, SymReal, mkint, to_int_poly, real_floor_int

BASE = 0xF0000
TOK = []          # index -> ('int', poly) | ('real', n, d, fmt)
TOKIDX = {}
_TOKRE = re.compile('[\U000F0000-\U0010FFFD]')


def has_tok(s):
    return bool(s) and max(s) >= '\U000F0000'


def _token(key, val):
    i = TOKIDX.get(key)
    if i is None:
        i = len(TOK)
        if i > 0x1FFF0:
            raise Unsupported('too many string tokens')
        TOK.append(val)
        TOKIDX[key] = i
    return chr(BASE + i)


def int_token(si):
    p = si.p
    return _token(('int', p.key()), ('int', p))


SPLIT_SIGN = True


def int_text(si):
    """text of an integer: an optional minus sign (forked on) and a token for the absolute value"""
    if not SPLIT_SIGN:
        return int_token(si)
    if bool(si < 0):
        r = -si
        return '-' + int_token(r)
    return int_token(si)


def tok_val(ch):
    return TOK[ord(ch) - BASE]


def tok_int(ch):
    v = tok_val(ch)
    return mkint(v[1]) if v[0] == 'int' else None


def parse_int(s, base=10):
    """int(str) with tokens"""
    t = s.strip()
    neg = False
    if t[:1] in '+-' and t[:1]:
        neg, t = t[0] == '-', t[1:]
    if len(t) == 1 and has_tok(t):
        v = tok_val(t)
        if v[0] == 'int':
            return mkint(-v[1] if neg else v[1])
        raise Unsupported('int() of the text of a real')
    int(_TOKRE.sub('1', s), base)           # ValueError if this is no integer whatever the numbers are
    raise Unsupported('int() of a composite symbolic text')


def parse_real(s):
    if type(s) is DecStr:
        if s.cut is None and s.start == 0:
            return s.x.n, s.x.d, s.x.sp
        return s.value()
    if has_tok(s):
        t = s.strip()
        neg = False
        if t[:1] in ('+', '-'):
            neg, t = t[0] == '-', t[1:]
        if len(t) == 1:
            v = tok_val(t)
            if v[0] == 'rslice':
                raise Unsupported('number from a cut text')
            n, d = (v[1], ONE) if v[0] == 'int' else (v[1], v[2])
            return (-n if neg else n), d, None
        float(_TOKRE.sub('1', s))
        raise Unsupported('number from a composite symbolic text')
    return num.parse_decimal(s)


class DecStr(str):
    """text of the decimal expansion of a real (underlying content: one token character)"""
    # x: SymReal, start, cut: slice of the text; strip: trailing zeros stripped; expo: uses exponents when small
    def __new__(cls, x, start=0, cut=None, strip=False, fixed=True):
        fmt = (strip, fixed)
        ch = _token(('real', x.n.key(), x.d.key(), fmt), ('real', x.n, x.d, fmt))
        if start or cut is not None:
            ch = _token(('rslice', x.n.key(), x.d.key(), fmt, start, cut), ('rslice', x.n, x.d, fmt, start, cut))
        self = str.__new__(cls, ch)
        self.x, self.start, self.cut, self.strip_, self.fixed = x, start, cut, strip, fixed
        return self

    # ---- shape: (neg, mantissa real, number of integer digits, exponent text or '')
    def shape(self):
        x = self.x
        neg = bool(x < 0)
        m = -x if neg else x
        ex = 0
        if not self.fixed and bool(m < Fraction(1, 10 ** 5)) and not bool(m == 0):
            for e in range(6, 60):
                if bool(m >= Fraction(1, 10 ** e)):
                    ex = -e
                    m = m * 10 ** e
                    break
            else:
                raise Unsupported('text of a very small real')
        for L in range(1, 40):
            if bool(m < 10 ** L):
                return neg, m, L, ex
        raise Unsupported('text of a very large real')

    def value(self):
        """exact value of the number this (prefix) text denotes"""
        if self.start:
            raise Unsupported('number from an inner slice')
        neg, m, L, ex = self.shape()
        k = self.cut - (1 if neg else 0) - L
        if ex:
            raise Unsupported('number from a cut exponent text')
        if k <= 0:
            f = real_floor_int(m / 10 ** (-k)) if k < 0 else real_floor_int(m)
        else:
            k -= 1
            f = real_floor_int(m * 10 ** k)
            f = f * Fraction(1, 1)
            v = type(self.x)(real_floor_int(m * 10 ** k)) / 10 ** k
            if neg:
                v = -v
            return v.n, v.d, None
        v = type(self.x)(f)
        if neg:
            v = -v
        return v.n, v.d, None

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, sp, step = i.start, i.stop, i.step
            st = 0 if st is None else num._conc(st)
            sp = None if sp is None else num._conc(sp)
            if step not in (None, 1) or st < 0:
                raise Unsupported('slice of a decimal text')
            if sp is not None and sp < 0:
                n = self._len()
                sp = max(0, n + sp)
            cut = self.cut
            if sp is not None:
                cut = self.start + sp if cut is None else min(cut, self.start + sp)
            if cut is not None and cut <= self.start + st:
                return ''
            return DecStr(self.x, self.start + st, cut, self.strip_, self.fixed)
        i = num._conc(i)
        if i < 0:
            raise Unsupported('negative index into a decimal text')
        return self.char(self.start + i)

    def char(self, pos):
        """the character at an absolute position: concrete for sign and point, a digit token otherwise"""
        neg, m, L, ex = self.shape()
        if neg:
            if pos == 0:
                return '-'
            pos -= 1
        if pos < L:
            f = real_floor_int(m / 10 ** (L - 1 - pos))
        elif pos == L:
            return '.'
        else:
            f = real_floor_int(m * 10 ** (pos - L))
        return str(f % 10)

    def _len(self):
        if self.cut is None or self.strip_:
            raise Unsupported('length of a decimal text')
        return self.cut - self.start

    def __len__(self):
        return self._len()

    def __bool__(self):
        return True

    def __iter__(self):
        n = self._len()
        return iter([self.char(self.start + k) for k in range(n)])

    def __hash__(self):
        return 0x5edc

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return decstr_eq(self, o)

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def _no(self, *a, **k):
        raise Unsupported('operation on the text of a real')

    __lt__ = __gt__ = __le__ = __ge__ = _no
    upper = rstrip = rjust = zfill = encode = replace = translate = count = rfind = rindex = _no
    rsplit = rpartition = center = _no

    def lower(self):
        return self

    def ljust(self, n, fill=' '):
        if self.strip_ or self.cut is not None or self.start:
            self._no()
        return self             # shows all digits of the working precision already

    def strip(self, *a):
        if a:
            self._no()
        return self

    def lstrip(self, chars=None):
        if chars == '-':
            return DecStr(abs(self.x), self.start, self.cut, self.strip_, self.fixed) if self.start == 0 and \
                self.cut is None else self._no()
        if chars is None:
            return self
        self._no()

    def startswith(self, p, *a):
        if p == '-' and self.start == 0:
            return bool(self.x < 0)
        if isinstance(p, str) and not a and len(p):
            return bool(self[:len(p)] == p)
        self._no()

    def endswith(self, *a):
        self._no()

    def find(self, sub, *a):
        if sub == '.' and not a and self.start == 0:
            neg, m, L, ex = self.shape()
            pos = L + (1 if neg else 0)
            return pos if self.cut is None or pos < self.cut else -1
        if sub == '-':
            return 0 if bool(self.x < 0) and self.start == 0 else -1
        if sub in ('e', 'E'):
            neg, m, L, ex = self.shape()
            if not ex:
                return -1
        self._no()

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def partition(self, sep):
        p = self.find(sep)
        if p < 0:
            return self, '', ''
        if p == self.start:
            return '', sep, self[p + 1:]
        return self[:p], sep, self[p + len(sep):]

    def split(self, sep=None, maxsplit=-1):
        if sep != '.':
            self._no()
        a, b, c = self.partition('.')
        return [a, c] if b else [a]

    def isdigit(self):
        self._no()

    def __str__(self):
        return self

    def __repr__(self):
        return "'%s'" % str.__str__(self)

    def __format__(self, spec):
        if spec:
            raise Unsupported('format of the text of a real')
        return str.__str__(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('serialising the text of a real')


def decstr_eq(a, b):
    """bool / SymBool"""
    if type(b) is not DecStr:
        if has_tok(b):
            if type(a) is DecStr and type(b) is not DecStr:
                a0 = str.__str__(a)
                if str.__str__(b) == a0:
                    return True
            raise Unsupported('comparison of decimal text with composite text')
        return _lit_eq(a, b)
    if a.start != b.start or a.start:
        if a.start == b.start and a.cut == b.cut and a.x is b.x:
            return True
        return _chars_eq(a, b)
    if a.cut is None and b.cut is None:
        return a.x == b.x
    if (a.cut is None) != (b.cut is None):
        if a.strip_ or b.strip_:
            return _full_vs_cut(a, b) if a.cut is None else _full_vs_cut(b, a)
        return False
    if a.x.n.d == b.x.n.d and a.x.d.d == b.x.d.d:
        if a.cut == b.cut:
            return True
        if not (a.strip_ or b.strip_):
            return False
    na, ma, La, ea = a.shape()
    nb, mb, Lb, eb = b.shape()
    return _prefix_eq(na, ma, La, a.cut, a.strip_, nb, mb, Lb, b.cut, b.strip_, ea, eb)


def _prefix_eq(na, ma, La, ca, sa, nb, mb, Lb, cb, sb, ea, eb):
    if na != nb:
        # a negative text starts with '-'; only an empty cut could agree
        return ca == cb == 0
    o = 1 if na else 0
    # digits after the point that are visible
    va, vb = ca - o - La - 1, cb - o - Lb - 1
    if va < 0 or vb < 0:
        # only integer digits (and maybe the point) visible on one side
        if ca != cb:
            if sa or sb:
                raise Unsupported('short decimal texts')
            return False
        pa, pb = ca - o >= La + 1, cb - o >= Lb + 1
        if pa != pb:
            return False
        if pa and La != Lb:
            return False
        k = ca - o
        fa = real_floor_int(ma / 10 ** (La - k)) if k < La else real_floor_int(ma)
        fb = real_floor_int(mb / 10 ** (Lb - k)) if k < Lb else real_floor_int(mb)
        return fa == fb
    if La != Lb:
        return False
    fa, fb = real_floor_int(ma * 10 ** va), real_floor_int(mb * 10 ** vb)
    if not sa and not sb:
        if va != vb:
            return False
        return fa == fb
    # stripped texts: a text whose expansion ends inside the visible part is shorter (at least one decimal stays)
    la = _vis_len(ma, fa, va, sa)
    lb = _vis_len(mb, fb, vb, sb)
    if la != lb:
        return False
    return real_floor_int(ma * 10 ** la) == real_floor_int(mb * 10 ** la)


def _vis_len(m, f, v, stripped):
    """number of visible decimals (forks)"""
    if not stripped:
        return v
    if bool(m * 10 ** v != f):
        return v
    k = v
    while k > 1 and bool(f % 10 == 0):
        f = f // 10
        k -= 1
    return k


def _full_vs_cut(a, b):
    # a complete stripped text against a prefix: equal iff a's expansion terminates within the prefix
    na, ma, La, ea = a.shape()
    nb, mb, Lb, eb = b.shape()
    if na != nb or La != Lb or ea != eb:
        return False
    o = 1 if na else 0
    v = b.cut - o - Lb - 1
    if v < 1:
        return False
    f = real_floor_int(ma * 10 ** v)
    if bool(ma * 10 ** v != f):
        return False
    la = _vis_len(ma, f, v, True)
    lb = _vis_len(mb, real_floor_int(mb * 10 ** v), v, b.strip_)
    if la != lb:
        return False
    return f == real_floor_int(mb * 10 ** v)


def _chars_eq(a, b):
    try:
        n, m = a._len(), b._len()
    except Unsupported:
        if a.cut is None and b.cut is None and a.start and b.start and not a.strip_ and not b.strip_:
            # infinite tails: same point position, then equal fractional parts
            na, ma, La, ea = a.shape()
            nb, mb, Lb, eb = b.shape()
            oa, ob = La + (1 if na else 0) + 1, Lb + (1 if nb else 0) + 1
            if a.start >= oa and b.start >= ob:
                ta, tb = ma * 10 ** (a.start - oa), mb * 10 ** (b.start - ob)
                return (ta - real_floor_int(ta)) == (tb - real_floor_int(tb))
        raise
    if n != m:
        return False
    return sym_and(*[str_eq(x, y) for x, y in zip(a, b)])


def _lit_eq(a, lit):
    m = re.match(r'(-?)(\d+)(?:(\.)(\d*))?$', lit)
    if a.start:
        if a.cut is None or a.strip_:
            raise Unsupported('comparison of an inner decimal text')
        if len(lit) != a._len():
            return False
        return sym_and(*[str_eq(x, y) for x, y in zip(a, lit)])
    if not m:
        if a.fixed and not re.match(r'[-\d.eE]', lit[:1] or 'x'):
            return False
        if not re.search(r'\d', lit):
            return False
        raise Unsupported('comparison of decimal text with %r' % lit)
    neg = m.group(1) == '-'
    ip, fp = m.group(2), m.group(4)
    o = 1 if neg else 0
    na, ma, La, ea = a.shape()
    if ea and a.cut is None:
        return False
    if na != neg:
        return False
    if a.cut is None:
        if not a.strip_:
            return False
        if fp is None or (len(fp) > 1 and fp.endswith('0')) or not fp:
            return False
        return sym_and(La == len(ip), ma == Fraction(ip + '.' + fp)) if La == len(ip) else False
    if len(lit) > a.cut:
        return False
    if fp is None and m.group(3) is None:
        # integer digits only
        if len(lit) != a.cut or len(ip) > La:
            return False
        return real_floor_int(ma / 10 ** (La - len(ip))) == int(ip)
    if La != len(ip):
        return False
    v = a.cut - o - La - 1
    k = len(fp)
    f = real_floor_int(ma * 10 ** v)
    if not a.strip_:
        return False if v != k else (f == int(ip + fp))
    if _vis_len(ma, f, v, True) != k:
        return False
    return real_floor_int(ma * 10 ** k) == int(ip + fp)


def real_str(x, digits=None, strip=True, fixed=False, spec=None):
    """str()/nstr() of a real"""
    if x.sp:
        return {'inf': '+inf', '-inf': '-inf', 'nan': 'nan'}[x.sp]
    if type(x) is num.SymFloat and x.sp is None and x.is_const():
        return repr(float(x.const_val()))
    if digits is not None and digits < 25:
        x = round_sig(x, digits)
    if spec:
        m = re.match(r'\.(\d+)f$', spec)
        if m:
            x = round(x, int(m.group(1)))
            return DecStr(x, strip=False, fixed=True)
        raise Unsupported('format %r of a real' % spec)
    if not strip and bool(x == 0):
        return '0.0'            # as mpmath.nstr(0, n, strip_zeros=False)
    if x.is_const():
        s = const_text(x.const_val(), strip, fixed)
        if s is not None:
            return s
    return DecStr(x, strip=strip, fixed=fixed)


def const_text(v, strip, fixed):
    """text of a concrete terminating decimal (None: leave it to DecStr)"""
    if not strip:
        return None
    d = v.denominator
    k = 0
    while d % 10 == 0:
        d //= 10
        k += 1
    while d % 5 == 0:
        d //= 5
        k += 1
    while d % 2 == 0:
        d //= 2
        k += 1
    if d != 1 or k > 40 or abs(v) >= 10 ** 15 or (not fixed and v != 0 and abs(v) < Fraction(1, 10 ** 5)):
        return None
    n = abs(v) * 10 ** k
    s = str(int(n)).rjust(k + 1, '0')
    s = (s[:-k] + '.' + s[-k:]) if k else s + '.0'
    i, f = s.split('.')
    f = f.rstrip('0') or '0'
    return ('-' if v < 0 else '') + i + '.' + f


def round_sig(x, n):
    """round to n significant digits"""
    m = abs(x)
    if bool(m == 0):
        return x
    for e in range(-40, 40):
        if bool(m < _p10(e)):
            # 10^(e-1) <= m < 10^e
            k = n - e
            return round(x * _p10(k)) * (type(x)(1) / 1) / _p10(k) if False else \
                type(x)._make(to_int_poly(num.real_nint_int(x * _p10(k))), ONE) / _p10(k)
    raise Unsupported('rounding of a very large real')


def _p10(k):
    return 10 ** k if k >= 0 else Fraction(1, 10 ** -k)


# ------------------------------------------------------------------ equality of texts with tokens
def _pieces(s):
    out = []
    for ch in s:
        if ch >= '\U000F0000':
            v = tok_val(ch)
            out.append(v)
        else:
            out.append(ch)
    return out


def str_eq(a, b):
    if type(a) is DecStr or type(b) is DecStr:
        if type(a) is not DecStr:
            a, b = b, a
        return decstr_eq(a, b)
    ta, tb = has_tok(a), has_tok(b)
    if not ta and not tb:
        return a == b
    if a == b:
        return True
    return _match(a, 0, b, 0, [])


_NUM = re.compile(r'-?(?:0|[1-9]\d*)(?!\d)')


def _match(a, i, b, j, acc):
    while True:
        if i == len(a) or j == len(b):
            if i == len(a) and j == len(b):
                return sym_and(*acc) if acc else True
            return False
        x, y = a[i], b[j]
        tx, ty = x >= '\U000F0000', y >= '\U000F0000'
        if not tx and not ty:
            if x != y:
                return False
            i += 1
            j += 1
            continue
        if tx and ty:
            vx, vy = tok_val(x), tok_val(y)
            if vx[0] == 'int' and vy[0] == 'int':
                acc = acc + [cmp_zero(vx[1] - vy[1], 'eq')]
            elif x == y:
                pass
            elif vx[0] == 'real' and vy[0] == 'real' and vx[3] == vy[3]:
                acc = acc + [cmp_zero(vx[1] * vy[2] - vy[1] * vx[2], 'eq')]
            else:
                raise Unsupported('comparison of symbolic texts')
            if i + 1 < len(a) and a[i + 1].isdigit() or j + 1 < len(b) and b[j + 1].isdigit():
                raise Unsupported('digits next to a symbolic number')
            i += 1
            j += 1
            continue
        if ty:
            a, i, b, j = b, j, a, i
            x = y
        v = tok_val(x)
        if v[0] != 'int':
            raise Unsupported('comparison of the text of a real')
        if (i + 1 < len(a) and (a[i + 1].isdigit() or a[i + 1] >= '\U000F0000')) or (i and a[i - 1].isdigit()):
            raise Unsupported('digits next to a symbolic number')
        m = _NUM.match(b, j)
        if not m:
            return False
        if m.end() < len(b) and b[m.end()] >= '\U000F0000':
            raise Unsupported('digits next to a symbolic number')
        acc = acc + [cmp_zero(v[1] - Poly.const(int(m.group())), 'eq')]
        i += 1
        j = m.end()
