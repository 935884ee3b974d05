"""Symbolic scenario environment."""
import os
import builtins
import time as _time
import types
import z3
from fractions import Fraction
from . import core, num, strs, shims, stubs, loader, envbase
from .core import (ATOMS, Poly, SymBool, Unsupported, sym_and, sym_or, sym_not, sym_implies, sym_iff)
from .num import SymInt, SymReal, SymFloat, MPF, mkint


def _triple(v):
    return v if isinstance(v, tuple) else (v.n, v.d, v.sp)


class SymEnv(envbase.EnvBase):
    symbolic = True

    def __init__(self, eng):
        envbase.EnvBase.__init__(self)
        self.eng = eng
        self._loader = None

    # ---- modules
    @property
    def loader(self):
        if self._loader is None:
            rec = envbase.PylatexRecorder.make()
            self.latex = rec
            extra = {'pylatex': stubs.mkmod('pylatex', **rec), 'time': self._time_module(), 'os': self._os_module(),
                     'os.path': path_module(), 'json': json_module(), 'copy': copy_module(), 'csv': csv_module(),
                     'itertools': itertools_module(), 'operator': operator_module(), 'ast': ast_module(),
                     're': re_module(), 'configparser': configparser_module()}
            self._loader = loader.Loader(extra, v_open)
        return self._loader

    def _time_module(self):
        env = self

        def now():
            if env._clock is None:
                return _time.time()
            return env._clock()
        d = {k: getattr(_time, k) for k in dir(_time) if not k.startswith('__')}
        d.update(time=now, perf_counter=now, monotonic=now, sleep=lambda s: None, process_time=now)
        return stubs.mkmod('time', **d)

    def _os_module(self):
        d = {k: getattr(os, k) for k in dir(os) if not k.startswith('__')}
        d.update(system=self.system, popen=None, fork=None, path=path_module())
        for n in ('remove', 'unlink', 'stat', 'rename', 'replace'):
            d[n] = (lambda f: lambda p, *a, **k: f(resolve(p), *a, **k))(d[n])
        for k in list(d):
            if k.startswith(('exec', 'spawn', 'kill')) or k in ('popen', 'fork', 'setuid', 'chroot'):
                del d[k]
        m = stubs.mkmod('os', **d)
        m.__path__ = []
        return m

    def mod(self, name):
        return self.loader.load(name)

    def lib(self, name):
        """a third-party/stdlib module as the repository sees it"""
        return self.loader.imp(name, fromlist=('x',))

    def cleanup(self):
        if self._loader is not None:
            self._loader.close()
        envbase.EnvBase.cleanup(self)

    @property
    def repo(self):
        return REPO_DIR()

    def is_num(self, x):
        return not isinstance(x, bool) and (isinstance(x, int) or type(x) is SymInt)

    # ---- texts with symbolic numbers
    def text(self, fmt, *a):
        return fmt % tuple(str(x) for x in a)

    def number(self, s):
        """the integer a text denotes (plain decimal digits), None if it is none"""
        if strs.has_tok(s):
            return strs.parse_int(s) if len(s) == 1 else None
        return int(s) if s.isdigit() else None

    def decimal(self, s):
        """the real a decimal text denotes, None if it denotes none"""
        t = s.strip()
        neg = t[:1] == '-'
        u = t[1:] if neg else t
        if len(u) == 1 and strs.has_tok(u):
            v = strs.tok_val(u)
            if v[0] == 'rslice':
                n, d, sp = _triple(strs.DecStr(MPF._make(v[1], v[2]), v[4], v[5], *v[3]).value())
                r = MPF._make(n, d, sp)
                return -r if neg else r
        try:
            n, d, sp = strs.parse_real(t)
        except ValueError:
            return None
        return None if sp else MPF._make(n, d)

    def close(self, a, b, digits):
        """equal up to rounding at `digits` significant digits (exact here)"""
        a, b = self.mpf(a), self.mpf(b)
        return abs(a - b) <= abs(b) * MPF(Fraction(1, 10 ** digits))

    def path(self, d, f):
        return os.path.join(d, f)

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        a = ATOMS.get(('in', name, lo, hi), name='in_%s' % name if ('n', name) not in _used else 'in_%s_%d' % (
            name, len(ATOMS.atoms)), isint=True, lo=lo, hi=hi, input=True)
        _used.add(('n', name))
        self.eng.inputs[name] = a
        self.eng.use_atom(a)
        return mkint(Poly.atom(a))

    def real(self, name, lo=None, hi=None, kind='mpf'):
        cls = MPF if kind == 'mpf' else SymFloat
        a = ATOMS.get(('in', name, lo, hi), name='in_%s' % name if ('n', name) not in _used else 'in_%s_%d' % (
            name, len(ATOMS.atoms)), isint=False, lo=lo, hi=hi, input=True)
        _used.add(('n', name))
        self.eng.inputs[name] = a
        self.eng.use_atom(a)
        return cls._make(Poly.atom(a))

    def mpf(self, v):
        if isinstance(v, str):
            return MPF(v)
        return num.as_real(v) if not isinstance(v, Fraction) else MPF(v)

    def conc(self, x):
        if type(x) is SymInt:
            return x.__index__()
        if type(x) is SymBool:
            return bool(x)
        return x

    # ---- logic
    def assume(self, c):
        if type(c) is SymBool:
            self.eng.assume(c)
        elif not c:
            raise core.PathAbort()

    def check(self, c, label):
        self.eng.prove(c if type(c) is SymBool else bool(c), label)

    def fail(self, label):
        self.eng.prove(False, label)

    def And(self, *a):
        return sym_and(*_flat(a))

    def Or(self, *a):
        return sym_or(*_flat(a))

    def Not(self, a):
        return sym_not(a)

    def Implies(self, a, b):
        return sym_implies(a, b)

    def Iff(self, a, b):
        return sym_iff(a, b)

    def literal_digits(self, n):
        """decimals kept of long decimal texts: at most n, and at most the working precision if that is a given number"""
        mp = self.lib('mpmath').mp

        def limit():
            d = mp.dps
            return max(0, min(n, d - 1)) if type(d) is int else n
        num.LIMIT = limit

    def leave_open_above(self, degree):
        """order comparisons of polynomials above this degree take either outcome"""
        from . import core
        core.HARD = degree

    def ite(self, c, a, b):
        """value selection (forks)"""
        return a if c else b

    def same(self, a, b):
        if isinstance(a, SymReal) and a.sp or isinstance(b, SymReal) and b.sp:
            x = a.sp if isinstance(a, SymReal) else None
            y = b.sp if isinstance(b, SymReal) else None
            if isinstance(b, float) and type(b) is float:
                y = _fsp(b)
            if isinstance(a, float) and type(a) is float:
                x = _fsp(a)
            return x == y
        if type(a) is float or type(b) is float:
            x, y = (_fsp(v) if type(v) is float else None for v in (a, b))
            if x or y:
                return x == y
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return sym_and(*[self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            return shims.SymDict(a) == shims.SymDict(b) if type(b) is not shims.SymDict else \
                shims.SymDict.__eq__(shims.SymDict(a), b)
        if isinstance(a, bool) != isinstance(b, bool) and not isinstance(a, SymReal) and not isinstance(b, SymReal):
            pass
        r = shims.deep_eq(a, b)
        if r is NotImplemented:
            return False
        return r

    def is_nan(self, x):
        return (isinstance(x, SymReal) and x.sp == 'nan') or (type(x) is float and x != x)

    def is_inf(self, x):
        return (isinstance(x, SymReal) and x.sp in ('inf', '-inf')) or \
            (type(x) is float and x in (float('inf'), float('-inf')))

    def floor(self, x):
        return stubs.m_floor(x)

    def abs(self, x):
        return abs(x)

    def raises(self, f, *a, **k):
        try:
            self.result = f(*a, **k)
            return None
        except Exception as e:
            self.result = None
            return e

    def obs(self, name, val):
        self.eng.observations.append((name, val))

    def pickle(self, x):
        return stubs.p_loads(stubs.p_dumps(x))

    def fn(self, name):
        """mathematical function of the mpmath model: sin, cos, tan, cot, sqrt, exp, ln"""
        return {'sin': stubs.mp_sin, 'cos': stubs.mp_cos, 'tan': stubs.mp_tan, 'cot': stubs.mp_cot,
                'exp': stubs.mp_exp, 'ln': stubs.mp_log, 'sqrt': stubs.mp_sqrt}[name]


_used = set()


def _flat(a):
    out = []
    for x in a:
        if isinstance(x, (list, tuple)):
            out.extend(x)
        else:
            out.append(x)
    return out


def _fsp(f):
    if f != f:
        return 'nan'
    if f in (float('inf'), float('-inf')):
        return 'inf' if f > 0 else '-inf'
    return None


# ------------------------------------------------------------------ more modules
def v_open(file, mode='r', *a, **k):
    file = resolve(file)
    if 'b' not in mode:
        k['encoding'] = 'utf-8'
    p = os.path.realpath(file) if isinstance(file, str) else file
    if any(c in mode for c in 'wax+') and isinstance(p, str):
        tmp = os.path.realpath(tempfile_root())
        if not p.startswith(tmp + os.sep):
            raise Unsupported('write outside the scratch directory: %s' % p)
    return builtins.open(file, mode, *a, **k)


def REPO_DIR():
    return loader.REPO


def tempfile_root():
    import tempfile
    return tempfile.gettempdir()


def json_module():
    import json

    def tok_in(s):
        """tokens become strings that the decoder turns back"""
        return strs._TOKRE.sub(lambda m: '"\x00%s"' % m.group(), s)

    def conv(o):
        if isinstance(o, str):
            if o[:1] == '\x00' and len(o) == 2:
                r = strs.parse_int(o[1])
                return r
            if o[:1] == '\x01' and len(o) == 2:
                return -strs.parse_int(o[1])
            return o
        if isinstance(o, list):
            return [conv(x) for x in o]
        if isinstance(o, dict):
            return shims.SymDict((conv(k), conv(v)) for k, v in o.items())
        return o

    def loads(s, **kw):
        if isinstance(s, str) and strs.has_tok(s):
            if type(s) is strs.DecStr:
                s = str.__str__(s)
            import re
            t = re.sub('-([\U000F0000-\U0010FFFD])', lambda m: '"\x01%s"' % m.group(1), s)
            t = tok_in2(t)
            return conv(json.loads(t, strict=False, **kw))
        r = json.loads(s, **kw)
        return conv(r)

    def tok_in2(t):
        import re
        return re.sub('(?<!\x01)([\U000F0000-\U0010FFFD])', lambda m: '"\x00%s"' % m.group(1), t)

    def dumps(o, **kw):
        out = _dump(o)
        return out

    def _dump(o):
        if isinstance(o, (list, tuple)):
            return '[' + ', '.join(_dump(x) for x in o) + ']'
        if isinstance(o, dict):
            return '{' + ', '.join('%s: %s' % (json.dumps(str(k), ensure_ascii=False), _dump(v))
                                   for k, v in o.items()) + '}'
        if type(o) is SymInt:
            return str(o)
        if isinstance(o, SymReal):
            raise Unsupported('json of a real')
        if type(o) is SymBool:
            return 'true' if o else 'false'
        return json.dumps(o, ensure_ascii=False)
    d = {k: getattr(json, k) for k in dir(json) if not k.startswith('__')}
    d.update(loads=loads, dumps=dumps, load=lambda f, **k: loads(f.read(), **k),
             dump=lambda o, f, **k: f.write(dumps(o, **k)))
    return stubs.mkmod('json', **d)


def copy_module():
    import copy
    return stubs.mkmod('copy', **{k: getattr(copy, k) for k in dir(copy) if not k.startswith('__')})


def csv_module():
    import csv
    return stubs.mkmod('csv', **{k: getattr(csv, k) for k in dir(csv) if not k.startswith('__')})


def itertools_module():
    import itertools

    def repeat(x, *n):
        if n:
            return itertools.repeat(x, num._conc(n[0]))
        return itertools.repeat(x)

    def islice(it, *a):
        return itertools.islice(it, *[num._conc(x) for x in a])

    def product(*its, repeat=1):
        return itertools.product(*its, repeat=num._conc(repeat))

    def combinations(it, r):
        return itertools.combinations(it, num._conc(r))
    d = {k: getattr(itertools, k) for k in dir(itertools) if not k.startswith('__')}
    d.update(repeat=repeat, islice=islice, product=product, combinations=combinations)
    return stubs.mkmod('itertools', **d)


def operator_module():
    import operator
    d = {k: getattr(operator, k) for k in dir(operator) if not k.startswith('__')}
    d.update(mod=shims.vt_mod, eq=lambda a, b: shims.vt_cmp(0, a, b), ne=lambda a, b: shims.vt_cmp(1, a, b),
             contains=lambda a, b: shims.vt_cmp(2, b, a), getitem=shims.vt_get)
    return stubs.mkmod('operator', **d)


def ast_module():
    import ast
    d = {k: getattr(ast, k) for k in dir(ast) if not k.startswith('__')}

    def literal_eval(s):
        if isinstance(s, str) and strs.has_tok(s):
            import re
            t = s.replace('True', 'true').replace('False', 'false').replace('None', 'null').replace("'", '"')
            t = t.replace('(', '[').replace(')', ']')
            return json_module().loads(t)
        return ast.literal_eval(s)
    d.update(literal_eval=literal_eval)
    return stubs.mkmod('ast', **d)


_TOKC = '\U000F0000-\U0010FFFD'


def tok_pattern(p):
    """the pattern for texts in which a run of decimal digits may be one symbol character; a construct which could
    match a part of such a run is refused"""
    out, i, n = [], 0, len(p)
    while i < n:
        c = p[i]
        if c == '\\' and i + 1 < n:
            e, i = p[i:i + 2], i + 2
            if e[1] in 'dw':
                out.append('[%s%s]' % (e, _TOKC))
            elif e[1] in 'DWS' or e[1].isdigit():
                raise Unsupported('regular expression %r on symbolic text' % p)
            else:
                out.append(e)
                continue
        elif c == '[':
            j = p.index(']', i + 2)
            e, i = p[i:j + 1], j + 1
            digits = '0-9' in e or '\\d' in e or '\\w' in e
            if not digits and any(ch.isdigit() for ch in e):
                raise Unsupported('regular expression %r on symbolic text' % p)
            if digits:
                e = e[:-1] + _TOKC + ']'
            elif e[1] != '^':
                out.append(e)
                continue
            out.append(e)
        elif c == '.':
            out.append(c)
            i += 1
        else:
            out.append(c)
            i += 1
            continue
        if i >= n or p[i] not in '+*':
            raise Unsupported('regular expression %r on symbolic text' % p)
    return ''.join(out)


class VtPattern(object):
    def __init__(self, real, flags=0):
        self._real, self._flags, self._tok = real, flags, None
        self.pattern, self.flags, self.groups, self.groupindex = real.pattern, real.flags, real.groups, real.groupindex

    def _for(self, *texts):
        import re
        if any(type(x) is strs.DecStr for x in texts):
            raise Unsupported('regular expression on a symbolic number')
        if any(isinstance(x, str) and strs.has_tok(x) for x in texts):
            if self._tok is None:
                self._tok = re.compile(tok_pattern(self.pattern), self._flags)
            return self._tok
        return self._real

    def __eq__(self, o):
        return isinstance(o, VtPattern) and self._real == o._real

    def __hash__(self):
        return hash(self._real)


for _n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split'):
    setattr(VtPattern, _n, (lambda n: lambda self, s, *a, **k: getattr(self._for(s), n)(s, *a, **k))(_n))
for _n in ('sub', 'subn'):
    setattr(VtPattern, _n, (lambda n: lambda self, r, s, *a, **k: getattr(self._for(r, s) if not callable(r) else self._for(s), n)(
        r, s, *a, **k))(_n))


def re_module():
    import re
    d = {k: getattr(re, k) for k in dir(re) if not k.startswith('__')}

    def comp(p, flags=0):
        if isinstance(p, VtPattern):
            return p
        if isinstance(p, str) and (type(p) is strs.DecStr or strs.has_tok(p)):
            raise Unsupported('symbolic regular expression')
        return VtPattern(re.compile(p, flags), flags)

    def g(name):
        def f(p, *a, **k):
            fl = k.pop('flags', 0)
            if name not in ('sub', 'subn', 'split') and len(a) > 1:
                a, fl = a[:1], a[1]
            return getattr(comp(p, fl), name)(*a, **k)
        return f
    for n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'sub', 'split', 'subn'):
        d[n] = g(n)
    d.update(compile=comp, Pattern=VtPattern, escape=lambda s: re.escape(s) if not strs.has_tok(s) else re.sub(
        '[^󰀀-􏿽]+', lambda m: re.escape(m.group()), s))
    return stubs.mkmod('re', **d)


# ------------------------------------------------------------------ files whose names carry symbolic numbers
def resolve(path):
    """the existing file of that (symbolic) name"""
    if not isinstance(path, str) or not strs.has_tok(path) or os.path.lexists(path):
        return path
    d, b = os.path.split(path)
    if strs.has_tok(d) or not os.path.isdir(d or '.'):
        return path
    for f in sorted(os.listdir(d or '.')):
        if bool(strs.str_eq(f, b)):
            return os.path.join(d, f)
    return path


def path_module():
    d = {k: getattr(os.path, k) for k in dir(os.path) if not k.startswith('__')}
    for n in ('exists', 'isfile', 'isdir', 'lexists', 'getsize', 'getmtime'):
        d[n] = (lambda f: lambda p: f(resolve(p)))(d[n])
    return stubs.mkmod('os.path', **d)


_CP = None


def configparser_module():
    """a copy of the standard configparser whose files are read as UTF-8 (symbol characters)"""
    global _CP
    if _CP is None:
        import importlib.util
        spec = importlib.util.find_spec('configparser')
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        m.__dict__['open'] = lambda f, *a, **k: builtins.open(f, encoding='utf-8')
        _CP = m
    return _CP
