"""Replacements for the Python builtins that cannot take symbolic values, and helpers the rewritten code calls."""
import builtins
import sys
from fractions import Fraction
from . import core, num, strs
from .core import Unsupported, SymBool, sym_and, sym_or, sym_not, cmp_zero, Budget
from .num import SymInt, SymReal, SymFloat, MPF, mkint, to_int_poly

EngineExc = (core.PathAbort, core.Unsupported, core.Violated, core.Budget)
MAX_ITER = 400


# ------------------------------------------------------------------ equality
def is_sym(x):
    """does the value (as a dictionary key) depend on symbols?"""
    t = type(x)
    if t is SymInt or t is strs.DecStr:
        return True
    if t in (int, float, bool, type(None)):
        return False
    if isinstance(x, SymReal):
        return not (x.sp or x.is_const())
    if t is str:
        return strs.has_tok(x)
    if t in (tuple, list, frozenset):
        for y in x:
            if is_sym(y):
                return True
        return False
    return False


def deep_eq(a, b):
    """a == b as a bool or SymBool"""
    if a is b:
        if isinstance(a, SymReal) and a.sp == 'nan':
            return False
        return True
    ta, tb = type(a), type(b)
    if issubclass(ta, str) and issubclass(tb, str):
        return strs.str_eq(a, b)
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        if len(a) != len(b):
            return False
        acc = []
        for x, y in zip(a, b):
            r = deep_eq(x, y)
            if r is False:
                return False
            if r is not True:
                acc.append(r)
        if not acc:
            return True
        return sym_and(*acc)
    return a == b


def contains(item, cont):
    """item in cont"""
    t = type(cont)
    if t in (list, tuple):
        acc = []
        for x in cont:
            r = deep_eq(x, item)
            if r is True:
                return True
            if r is not False:
                acc.append(r)
        return sym_or(*acc) if acc else False
    if t is str or (issubclass(t, str) and t is not strs.DecStr):
        if isinstance(item, str) and (strs.has_tok(cont) or strs.has_tok(item)):
            if type(item) is strs.DecStr:
                raise Unsupported('substring test on the text of a real')
            if not strs.has_tok(item):
                if str.__contains__(cont, item):
                    return True
                if not any(c.isdigit() or c == '-' for c in item):
                    return False
            elif str.__contains__(cont, item):
                return True
            raise Unsupported('substring test on symbolic text')
    if isinstance(cont, SymRange):
        return cont.has(item)
    return item in cont


# ------------------------------------------------------------------ containers
class KeyBox(object):
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key


def _unbox(k):
    return k.key if type(k) is KeyBox else k


_MISSING = object()


class _DictMeta(type):
    def __instancecheck__(cls, x):
        if cls is SymDict:
            return isinstance(x, dict)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is SymDict:
            return issubclass(c, dict)
        return type.__subclasscheck__(cls, c)


class SymDict(dict, metaclass=_DictMeta):
    """dict whose keys may be symbolic (equality is forked on); insertion ordered"""

    def __new__(cls, *a, **k):
        self = dict.__new__(cls)
        dict.__setattr__(self, '_vt_boxes', [])
        return self

    def __init__(self, *a, **kw):
        SymDict.update(self, *a, **kw)

    def _slot(self, key):
        boxes = self._vt_boxes
        if not is_sym(key):
            if dict.__contains__(self, key):
                return key
            for b in boxes:
                if _maybe_equal(b.key, key) and bool(deep_eq(b.key, key)):
                    return b
            return _MISSING
        for k in list(dict.keys(self)):
            u = _unbox(k)
            if _maybe_equal(u, key) and bool(deep_eq(u, key)):
                return k
        return _MISSING

    def __getitem__(self, key):
        s = self._slot(key)
        if s is _MISSING:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return dict.__getitem__(self, s)

    def __setitem__(self, key, val):
        s = self._slot(key)
        if s is _MISSING:
            if is_sym(key):
                if type(key) is list:
                    raise TypeError("unhashable type: 'list'")
                s = KeyBox(key)
                self._vt_boxes.append(s)
            else:
                s = key
        dict.__setitem__(self, s, val)

    def __delitem__(self, key):
        s = self._slot(key)
        if s is _MISSING:
            raise KeyError(key)
        dict.__delitem__(self, s)
        if type(s) is KeyBox:
            self._vt_boxes.remove(s)

    def __contains__(self, key):
        return self._slot(key) is not _MISSING

    def __iter__(self):
        for k in list(dict.__iter__(self)):
            yield _unbox(k)

    def __len__(self):
        return dict.__len__(self)

    def __bool__(self):
        return dict.__len__(self) > 0

    def keys(self):
        return _View([_unbox(k) for k in dict.keys(self)], self)

    def values(self):
        return _View(list(dict.values(self)))

    def items(self):
        return _View([(_unbox(k), v) for k, v in dict.items(self)])

    def get(self, key, default=None):
        s = SymDict._slot(self, key)
        return default if s is _MISSING else dict.__getitem__(self, s)

    def setdefault(self, key, default=None):
        s = SymDict._slot(self, key)
        if s is _MISSING:
            SymDict.__setitem__(self, key, default)
            return default
        return dict.__getitem__(self, s)

    def pop(self, key, *d):
        s = SymDict._slot(self, key)
        if s is _MISSING:
            if d:
                return d[0]
            raise KeyError(key)
        v = dict.__getitem__(self, s)
        dict.__delitem__(self, s)
        if type(s) is KeyBox:
            self._vt_boxes.remove(s)
        return v

    def popitem(self):
        k, v = dict.popitem(self)
        if type(k) is KeyBox:
            self._vt_boxes.remove(k)
        return _unbox(k), v

    def clear(self):
        dict.clear(self)
        del self._vt_boxes[:]

    def copy(self):
        r = SymDict()
        for k, v in SymDict.items(self):
            SymDict.__setitem__(r, k, v)
        return r

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if isinstance(o, SymDict):
                it = SymDict.items(o)
            elif hasattr(o, 'keys'):
                it = [(k, o[k]) for k in o.keys()]
            else:
                it = [tuple(x) for x in o]
            for k, v in it:
                SymDict.__setitem__(self, k, v)
        for k, v in kw.items():
            SymDict.__setitem__(self, k, v)

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        acc = []
        for k, v in SymDict.items(self):
            if isinstance(o, SymDict):
                s = SymDict._slot(o, k)
                if s is _MISSING:
                    return False
                w = dict.__getitem__(o, s)
            else:
                if k not in o:
                    return False
                w = o[k]
            r = deep_eq(v, w)
            if r is False:
                return False
            acc.append(r)
        return sym_and(*acc)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    __hash__ = None

    def __or__(self, o):
        r = SymDict.copy(self)
        r.update(o)
        return r

    def __ior__(self, o):
        SymDict.update(self, o)
        return self

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __reversed__(self):
        return reversed(list(self))

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % (k, v) for k, v in SymDict.items(self)) + '}'

    __str__ = __repr__

    def __reduce__(self):
        cls = type(self)
        gs = cls.__dict__.get('__getstate__')
        if gs is None:
            for c in cls.__mro__:
                if c in (SymDict, dict, object):
                    break
                if '__getstate__' in c.__dict__:
                    gs = c.__dict__['__getstate__']
                    break
        if gs is not None:
            st = self.__getstate__()
        else:
            st = {k: v for k, v in self.__dict__.items() if k != '_vt_boxes'} or None
        import copyreg
        return (copyreg.__newobj__, (cls,), st, None, iter(SymDict.items(self)))

    def __reduce_ex__(self, proto):
        return self.__reduce__()

    def __setstate__(self, st):
        self.__dict__.update(st)

    def __copy__(self):
        if type(self) is SymDict:
            return SymDict.copy(self)
        import copyreg
        import copy
        rv = self.__reduce_ex__(4)
        return copy._reconstruct(self, None, *rv)

    def __deepcopy__(self, memo):
        import copy
        if type(self) is SymDict:
            r = SymDict()
            memo[id(self)] = r
            for k, v in SymDict.items(self):
                SymDict.__setitem__(r, copy.deepcopy(k, memo), copy.deepcopy(v, memo))
            return r
        rv = self.__reduce_ex__(4)
        return copy._reconstruct(self, memo, *rv)


def _maybe_equal(a, b):
    """cheap type screen before a symbolic comparison"""
    ta, tb = type(a), type(b)
    if issubclass(ta, str) != issubclass(tb, str):
        return False
    if (ta is tuple) != (tb is tuple):
        return False
    if ta is tuple and len(a) != len(b):
        return False
    return True


class _View(list):
    """result of keys()/values()/items()"""
    def __init__(self, it, owner=None):
        list.__init__(self, it)
        self.owner = owner

    def __contains__(self, x):
        if self.owner is not None:
            return SymDict.__contains__(self.owner, x)
        return bool(contains(x, list(self)))

    def __sub__(self, o):
        return SymSet(self) - SymSet(o)

    def __rsub__(self, o):
        return SymSet(o) - SymSet(self)

    def __and__(self, o):
        return SymSet(self) & SymSet(o)

    def __or__(self, o):
        return SymSet(self) | SymSet(o)

    def __eq__(self, o):
        return SymSet(self) == SymSet(o) if self.owner is not None else list.__eq__(self, o)

    __hash__ = None
    append = extend = pop = insert = remove = sort = reverse = __getitem__ = __setitem__ = __add__ = None


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        SymDict.update(self, *a, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


class SymCounter(SymDict):
    def __init__(self, it=None, **kw):
        if it is not None:
            SymCounter.update(self, it)
        for k, v in kw.items():
            self[k] = v

    def __missing__(self, key):
        return 0

    def update(self, it=None, **kw):
        if isinstance(it, dict):
            for k, v in it.items():
                self[k] = self[k] + v
        elif it is not None:
            for k in it:
                self[k] = self[k] + 1

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: -kv[1])
        return r if n is None else r[:n]


class _SetMeta(type):
    def __instancecheck__(cls, x):
        if cls is SymSet:
            return isinstance(x, set)
        return type.__instancecheck__(cls, x)


class SymSet(set, metaclass=_SetMeta):
    def __new__(cls, *a):
        self = set.__new__(cls)
        self._vt_d = SymDict()
        return self

    def __init__(self, it=()):
        for x in it:
            self.add(x)

    def add(self, x):
        if type(x) in (list, dict, SymDict, SymSet):
            raise TypeError("unhashable type: %r" % type(x).__name__)
        d = self._vt_d
        if SymDict._slot(d, x) is _MISSING:
            d[x] = None

    def discard(self, x):
        self._vt_d.pop(x, None)

    def remove(self, x):
        del self._vt_d[x]

    def pop(self):
        if not len(self):
            raise KeyError('pop from an empty set')
        k = next(iter(self._vt_d))
        del self._vt_d[k]
        return k

    def clear(self):
        self._vt_d.clear()

    def copy(self):
        return SymSet(self)

    def __contains__(self, x):
        return x in self._vt_d

    def __iter__(self):
        return iter(self._vt_d)

    def __len__(self):
        return len(self._vt_d)

    def __bool__(self):
        return len(self._vt_d) > 0

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = SymSet(self)
        r.update(*its)
        return r

    def difference(self, *its):
        r = SymSet(self)
        for it in its:
            for x in it:
                r.discard(x)
        return r

    def intersection(self, *its):
        r = list(self)
        for it in its:
            s = it if isinstance(it, set) else SymSet(it)
            r = [x for x in r if x in s]
        return SymSet(r)

    def symmetric_difference(self, o):
        o = SymSet(o)
        return (self - o) | (o - self)

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        k = self.intersection(*its)
        self._vt_d = k._vt_d

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, set) or isinstance(o, (frozenset, _View)) else NotImplemented

    def __or__(self, o):
        return self.union(o) if isinstance(o, (set, frozenset, _View)) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, (set, frozenset, _View)) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __rsub__(self, o):
        return SymSet(o) - self

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def issubset(self, o):
        s = o if isinstance(o, set) else SymSet(o)
        return all(x in s for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join(repr(x) for x in self) + '}' if len(self) else 'set()'

    def __reduce__(self):
        return (SymSet, (list(self),))

    def __reduce_ex__(self, p):
        return self.__reduce__()

    def __copy__(self):
        return SymSet(self)

    def __deepcopy__(self, memo):
        import copy
        return SymSet([copy.deepcopy(x, memo) for x in self])


# ------------------------------------------------------------------ ranges
class SymRange(object):
    """range with symbolic bounds (concrete nonzero step unless the step is forked on)"""

    def __init__(self, start, stop, step):
        if type(step) is SymInt:
            step = step.__index__()
        if step == 0:
            raise ValueError('range() arg 3 must not be zero')
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        k = 0
        lo, hi, st = self.start, self.stop, self.step
        while True:
            v = lo + k * st
            if not bool(v < hi if st > 0 else v > hi):
                return
            yield v
            k += 1
            if k > MAX_ITER:
                raise Budget('range longer than %d' % MAX_ITER)

    def _vt_len(self):
        d = self.stop - self.start if self.step > 0 else self.start - self.stop
        s = abs(self.step)
        if not bool(d > 0):
            return 0
        return d if s == 1 else (d + (s - 1)) // s

    def __bool__(self):
        return bool(self._vt_len() > 0)

    def has(self, x):
        p = to_int_poly(x)
        if p is None:
            if isinstance(x, (float, SymReal)):
                return any(x == y for y in self)
            return False
        x = mkint(p)
        if self.step > 0:
            r = sym_and(x >= self.start, x < self.stop)
        else:
            r = sym_and(x <= self.start, x > self.stop)
        if abs(self.step) != 1:
            r = sym_and(r, (x - self.start) % abs(self.step) == 0)
        return r

    def __contains__(self, x):
        return bool(self.has(x))

    def __getitem__(self, i):
        if isinstance(i, slice):
            n = self._vt_len()
            a, b, c = slice(i.start, i.stop, i.step).indices(num._conc(n))
            return mkrange(self.start + a * self.step, self.start + b * self.step, self.step * c)
        n = self._vt_len()
        if bool(i < 0):
            i = i + n
        if not bool(i < n) or bool(i < 0):
            raise IndexError('range object index out of range')
        return self.start + i * self.step

    def __reversed__(self):
        n = self._vt_len()
        k = 0
        while bool(k < n):
            yield self.start + (n - 1 - k) * self.step
            k += 1
            if k > MAX_ITER:
                raise Budget('range longer than %d' % MAX_ITER)

    def __eq__(self, o):
        if isinstance(o, (range, SymRange)):
            return deep_eq((self.start, self.stop, self.step), (o.start, o.stop, o.step))
        return NotImplemented

    def index(self, x):
        if not bool(self.has(x)):
            raise ValueError('not in range')
        return (x - self.start) // self.step

    def count(self, x):
        return 1 if bool(self.has(x)) else 0

    @property
    def __class__(self):
        return range

    def __repr__(self):
        return 'range(%s, %s)' % (self.start, self.stop)

    __hash__ = None


def mkrange(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    elif len(a) == 3:
        lo, hi, st = a
    else:
        raise TypeError('range expected 1 to 3 arguments, got %d' % len(a))
    for x in (lo, hi, st):
        if not isinstance(x, int):
            raise TypeError("%r object cannot be interpreted as an integer" % type(x).__name__)
    lo, hi, st = [int(bool(x)) if type(x) is SymBool else x for x in (lo, hi, st)]
    if type(lo) is SymInt or type(hi) is SymInt or type(st) is SymInt:
        return SymRange(lo, hi, st)
    return range(lo, hi, st)


# ------------------------------------------------------------------ type shims
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __call__(cls, x=0, *base, **kw):
        t = type(x)
        if t is int or t is SymInt:
            return x
        if base or kw:
            if isinstance(x, str) and strs.has_tok(x):
                return strs.parse_int(x)
            return int(x, *base, **kw)
        if isinstance(x, SymReal):
            return num.real_trunc_int(x)
        if t is SymBool:
            return int(bool(x))
        if issubclass(t, str) and (t is strs.DecStr or strs.has_tok(x)):
            if t is strs.DecStr:
                raise ValueError('invalid literal for int()')
            return strs.parse_int(x)
        f = getattr(t, '__int__', None)
        if f is not None and not issubclass(t, (int, float)) and getattr(t, '__module__', '') not in ('builtins',):
            r = f(x)
            return r
        return int(x)

    def __repr__(cls):
        return "<class 'int'>"


class VInt(int, metaclass=_IntMeta):
    pass


VInt.__name__ = 'int'


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __call__(cls, x=0.0):
        t = type(x)
        if t is float or t is SymFloat:
            return x
        if isinstance(x, SymReal):
            if x.sp:
                return float(x.sp)
            return SymFloat._make(x.n, x.d)
        if t is SymInt:
            return SymFloat._from(x.p)
        if issubclass(t, str) and (t is strs.DecStr or strs.has_tok(x)):
            n, d, sp = strs.parse_real(x)
            return SymFloat._make(n, d)
        return float(x)

    def __repr__(cls):
        return "<class 'float'>"


class VFloat(float, metaclass=_FloatMeta):
    pass


VFloat.__name__ = 'float'


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, range)

    def __eq__(cls, o):
        return o is cls or o is range

    def __hash__(cls):
        return hash(range)

    def __call__(cls, *a):
        return mkrange(*a)


class VRange(metaclass=_RangeMeta):
    pass


class _FSMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, frozenset)

    def __call__(cls, it=()):
        l = list(it)
        if any(is_sym(x) for x in l):
            raise Unsupported('frozenset of symbolic values')
        return frozenset(l)


class VFrozenset(metaclass=_FSMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, bool)

    def __subclasscheck__(cls, c):
        return issubclass(c, bool)

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)

    def __call__(cls, x=False):
        return bool(x)


class VBool(metaclass=_BoolMeta):
    pass


VBool.__name__ = 'bool'


def v_type(x):
    t = type(x)
    if t is SymInt or t is int:
        return VInt
    if t is SymFloat or t is float:
        return VFloat
    if t is SymBool or t is bool:
        return VBool
    if t is strs.DecStr:
        return str
    if t is SymRange or t is range:
        return VRange
    if t is dict:
        return SymDict
    if t is set:
        return SymSet
    return t


def v_len(x):
    t = type(x)
    if t in (list, tuple, dict, range):
        return len(x)
    if t is SymRange:
        return x._vt_len()
    if t is str:
        if strs.has_tok(x):
            raise Unsupported('length of symbolic text')
        return len(x)
    f = getattr(t, '__len__', None)
    if f is not None and type(f).__name__ == 'function':
        r = f(x)
        if type(r) is SymInt:
            if bool(r < 0):
                raise ValueError('__len__() should return >= 0')
            return r
        return len(x)
    return len(x)


def v_print(*a, sep=' ', end='\n', file=None, flush=False):
    for x in a:
        if isinstance(x, (SymInt, SymReal, SymBool)):
            continue
        if type(x) in (list, tuple, dict, SymDict):
            continue
        str(x)


def v_eval(src, g=None, l=None):
    f = sys._getframe(1)
    if g is None:
        g, l = f.f_globals, (l if l is not None else f.f_locals)
    if isinstance(src, str):
        from . import loader
        src = loader.compile_eval(src)
    return eval(src, g, l if l is not None else g)


def v_min(*a, **k):
    if len(a) == 2 and not k and all(isinstance(x, num.SymReal) and x.sp is None for x in a) and \
            type(a[0]) is type(a[1]) and any(x.n.degree() + y.d.degree() > 20 for x, y in (a, a[::-1])):
        return num.real_min(*a)
    return min(*a, **k)


def v_isinstance(x, c):
    return isinstance(x, c)


def v_hash(x):
    return hash(x)


def v_round(x, *a):
    return round(x, *a)


def v_str(x):
    return str(x)


# ------------------------------------------------------------------ operators used by the rewritten code
def vt_mod(a, b):
    if isinstance(a, str):
        return fmt_percent(a, b)
    return a % b


_PCT = None


def fmt_percent(f, args):
    import re
    global _PCT
    if _PCT is None:
        _PCT = re.compile(r'%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')
    if not _any_sym_shallow(args):
        return f % args
    mapping = isinstance(args, dict)
    tup = args if type(args) is tuple else (args,)
    out, pos, i = [], 0, 0
    for m in _PCT.finditer(f):
        out.append(f[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if '*' in (width, prec):
            raise Unsupported('%* formatting')
        if key is not None:
            v = args[key]
        else:
            if i >= len(tup):
                raise TypeError('not enough arguments for format string')
            v = tup[i]
            i += 1
        if conv in 'diu':
            if isinstance(v, SymReal):
                v = num.real_trunc_int(v)
            elif not isinstance(v, int):
                if not isinstance(v, float):
                    raise TypeError('%%%s format: a real number is required, not %s' % (conv, type(v).__name__))
            if type(v) is SymInt and not flags and not width and not prec:
                out.append(str(v))
                continue
        elif conv in 'sr' and not width and not prec:
            out.append(str(v) if conv == 's' else repr(v))
            continue
        spec = '%' + (flags or '') + (width or '') + ('.' + prec if prec else '') + conv
        if type(v) is SymInt:
            v = v.__index__()
        elif isinstance(v, SymReal):
            if conv in 'fF' and not width and not flags:
                out.append(strs.real_str(v, spec='.%sf' % (prec or 6)))
                continue
            v = float(v)
        out.append(spec % (v,))
    out.append(f[pos:])
    if not mapping and i < len(tup):
        raise TypeError('not all arguments converted during string formatting')
    return ''.join(out)


def _any_sym_shallow(a):
    if type(a) is tuple:
        return any(isinstance(x, (SymInt, SymReal, SymBool, list, tuple, dict)) or not isinstance(x, (int, str, float))
                   for x in a)
    if isinstance(a, dict):
        return True
    return isinstance(a, (SymInt, SymReal, SymBool)) or not isinstance(a, (int, str, float))


def vt_cmp(op, a, b):
    if op == 0:
        return deep_eq(a, b)
    if op == 1:
        return sym_not(deep_eq(a, b)) if _plain(a) or _plain(b) else a != b
    if op == 2:
        return contains(a, b)
    return sym_not(contains(a, b))


def _plain(x):
    t = type(x)
    return t in (list, tuple) or issubclass(t, str)


def vt_chain(first, *rest):
    """chained comparison; rest = (op, thunk)..."""
    a = first
    res = True
    for op, th in rest:
        b = th()
        if op in (0, 1, 2, 3):
            res = vt_cmp(op, a, b)
        elif op == 4:
            res = a < b
        elif op == 5:
            res = a <= b
        elif op == 6:
            res = a > b
        elif op == 7:
            res = a >= b
        elif op == 8:
            res = a is b
        else:
            res = a is not b
        if not res:
            return res
        a = b
    return res


def vt_get(obj, idx):
    t = type(obj)
    if t is str and strs.has_tok(obj):
        if type(idx) is slice and idx.start in (None, 0) and idx.stop is None and idx.step in (None, 1):
            return obj
        return str_slice(obj, idx)
    if t in (list, tuple) and type(idx) is SymInt:
        n = len(obj)
        if n and bool(idx >= n) or bool(idx < -n):
            raise IndexError('%s index out of range' % t.__name__)
    return obj[idx]


def str_slice(s, idx):
    """slices of symbolic text that stay clear of the symbolic characters"""
    toks = [i for i, c in enumerate(s) if c >= '\U000F0000']
    first, last = toks[0], toks[-1]
    tail = len(s) - 1 - last
    if type(idx) is slice and idx.step in (None, 1):
        a, b = idx.start, idx.stop
        if (a is None or 0 <= a <= first or (a < 0 and -a <= tail)) and \
                (b is None or 0 <= b <= first or (b < 0 and -b <= tail)):
            return s[idx]
    elif type(idx) is int:
        if 0 <= idx < first or (idx < 0 and -idx <= tail):
            return s[idx]
    raise Unsupported('slice through symbolic text')


def vt_meth(obj, name, *a, **k):
    if isinstance(obj, str) and (type(obj) is strs.DecStr or strs.has_tok(obj)):
        raise Unsupported('str.%s of symbolic text' % name)
    return getattr(obj, name)(*a, **k)


def vt_dict(pairs):
    r = SymDict()
    for k, v in pairs:
        if k is _MISSING:
            r.update(v)
        else:
            SymDict.__setitem__(r, k, v)
    return r


def vt_set(items):
    return SymSet(items)


def make_builtins(open_fn=None, import_fn=None):
    b = dict(builtins.__dict__)
    b.update({'int': VInt, 'float': VFloat, 'bool': VBool, 'range': VRange, 'dict': SymDict, 'set': SymSet,
              'frozenset': VFrozenset, 'len': v_len, 'print': v_print, 'eval': v_eval, 'min': v_min,
              'vt__mod': vt_mod, 'vt__cmp': vt_cmp, 'vt__chain': vt_chain, 'vt__get': vt_get,
              'vt__dict': vt_dict, 'vt__set': vt_set, 'vt__type': v_type, 'vt__exc': EngineExc,
              'vt__missing': _MISSING, 'vt__meth': vt_meth})
    if open_fn is not None:
        b['open'] = open_fn
    if import_fn is not None:
        b['__import__'] = import_fn
    return b
