"""Dynamic symbolic execution engine: canonical polynomials over SMT atoms, symbolic booleans and integers,
depth-first re-execution over the feasible branches, z3 deciding branch feasibility and assertions."""
import time
from fractions import Fraction
from math import gcd as _igcd
import z3


class PathAbort(BaseException):
    """The current path is infeasible / finished."""


class Unsupported(BaseException):
    """The engine cannot represent something: the run is inconclusive (never a pass)."""


class Violated(BaseException):
    """The current path violated an assertion; stop it."""


class Budget(BaseException):
    """A stated limit of the exploration was hit: inconclusive."""


_real_int, _real_isinstance = int, isinstance
ENGINE = None


def engine():
    return ENGINE


TABLE_LIMIT = 100
TABLES = False                  # per case option 'tables': value tables of nonlinear terms over small integer inputs


def support(a, seen):
    """bounded integer inputs a derived atom depends on; None when there are others"""
    if a.id in seen:
        return set()
    seen.add(a.id)
    if a.deps is None:
        return {a.id} if a.input and a.isint and a.lo is not None and a.hi is not None else None
    out = set()
    for p in a.deps:
        for i in p.atoms():
            r = support(ATOMS.atoms[i], seen)
            if r is None:
                return None
            out |= r
    return out


_MONOS = {}


def mono(m):
    """a product of small bounded integer inputs as one solver variable with its value table (keeps queries linear)"""
    r = _MONOS.get(m)
    if r is None:
        import itertools
        ids = sorted(set(m))
        n = 1
        for i in ids:
            a = ATOMS.atoms[i]
            if not (a.input and a.isint) or a.lo is None or a.hi is None:
                n = TABLE_LIMIT + 1
                break
            n *= a.hi - a.lo + 1
            if n > TABLE_LIMIT:
                break
        if n > TABLE_LIMIT:
            _MONOS[m] = ()
            return None
        v = z3.Int('mono!%d' % len(_MONOS))
        cons = []
        ats = [ATOMS.atoms[i] for i in ids]
        for vs in itertools.product(*[range(int(a.lo), int(a.hi) + 1) for a in ats]):
            d = dict(zip(ids, vs))
            p = 1
            for i in m:
                p *= d[i]
            cons.append(z3.Implies(z3.And(*[a.z == c for a, c in zip(ats, vs)]), v == p))
        r = _MONOS[m] = (v, cons)
    return r or None


def value_table(a):
    """lemma for the solver: the value of a nonlinear derived atom for each choice of its (few, small) integer inputs"""
    import itertools
    if all(len(m) <= 1 for p in a.deps for m in p.d) and (len(a.deps) == 1 or a.deps[1].is_const()):
        return []
    sup = support(a, set())
    if not sup:
        return []
    ins = [ATOMS.atoms[i] for i in sorted(sup)]
    n = 1
    for x in ins:
        n *= x.hi - x.lo + 1
        if n > TABLE_LIMIT:
            return []
    out = []
    for vs in itertools.product(*[range(int(x.lo), int(x.hi) + 1) for x in ins]):
        memo = dict(zip([x.id for x in ins], vs))

        def ev(p):
            tot = 0
            for m, c in p.d.items():
                v = c
                for i in m:
                    if i not in memo:
                        f = ATOMS.atoms[i].evalf
                        memo[i] = None if f is None else f(ev)
                    if memo[i] is None:
                        return None
                    v = v * memo[i]
                tot = tot + v
            return tot
        try:
            v = a.evalf(ev)
        except (ZeroDivisionError, ValueError, OverflowError):
            v = None
        if v is not None:
            out.append(z3.Implies(z3.And(*[x.z == c for x, c in zip(ins, vs)]), a.z == _zc(v, a.isint)))
    return out


# ---------------------------------------------------------------- atoms
class Atom(object):
    __slots__ = ('id', 'name', 'z', 'isint', 'lo', 'hi', 'define', 'evalf', 'input', 'irr', 'deps', 'table')

    def __init__(self, id, name, isint, lo=None, hi=None, define=None, evalf=None, input=False):
        self.id, self.name, self.isint = id, name, isint
        self.lo, self.hi = lo, hi
        self.define, self.evalf, self.input = define, evalf, input
        self.irr = False
        self.deps = None        # polynomials a derived atom is computed from
        self.table = None
        self.z = z3.Int(name) if isint else z3.Real(name)


class AtomTable(object):
    def __init__(self):
        self.atoms = []
        self.by_key = {}

    def get(self, key, **kw):
        i = self.by_key.get(key)
        if i is None:
            a = Atom(len(self.atoms), kw.pop('name'), **kw)
            self.atoms.append(a)
            self.by_key[key] = i = a.id
        return self.atoms[i]


ATOMS = AtomTable()


# ---------------------------------------------------------------- polynomials
def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly(object):
    """Immutable multivariate polynomial; monomial = sorted tuple of atom ids (with repetition)."""
    __slots__ = ('d', '_key', '_z', '_int')

    def __init__(self, d):
        self.d = d
        self._key = None
        self._z = None
        self._int = None

    @staticmethod
    def const(c):
        c = _norm(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a):
        return Poly({(a.id,): 1})

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const_val(self):
        return self.d.get((), 0)

    def key(self):
        if self._key is None:
            self._key = frozenset(self.d.items())
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.d == o.d

    def __add__(self, o):
        if not o.d:
            return self
        if not self.d:
            return o
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = _norm(v + c)
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        k = _norm(k)
        if not k:
            return ZERO
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.d.items()})

    def __mul__(self, o):
        if not self.d or not o.d:
            return ZERO
        if o.is_const():
            return self.scale(o.const_val())
        if self.is_const():
            return o.scale(self.const_val())
        if len(self.d) * len(o.d) > 4000000:
            raise Budget('polynomial too large')
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = r.get(m, 0) + c1 * c2
                r[m] = v
        return Poly({m: _norm(c) for m, c in r.items() if c})

    def pow(self, n):
        r, b = ONE, self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    def degree(self):
        return max((len(m) for m in self.d), default=0)

    def integer_valued(self):
        """integer coefficients over integer atoms"""
        if self._int is None:
            at = ATOMS.atoms
            self._int = all(type(c) is int for c in self.d.values()) and all(at[i].isint for i in self.atoms())
        return self._int

    def linearizable(self):
        return TABLES and all(mono(m) is not None for m in self.d if len(m) > 1)

    def z(self):
        if self._z is None:
            at = ATOMS.atoms
            isint = self.integer_valued()
            terms = []
            lin = self.linearizable()
            for m, c in self.d.items():
                fs = []
                t = mono(m) if lin and len(m) > 1 else None
                if t is not None:
                    fs.append(t[0] if isint else z3.ToReal(t[0]))
                    m = ()
                for i in m:
                    a = at[i]
                    fs.append(a.z if (isint or not a.isint) else z3.ToReal(a.z))
                cz = None
                if c != 1 or not fs:
                    cz = z3.IntVal(c) if isint else (z3.RealVal(c) if type(c) is int
                                                     else z3.Q(c.numerator, c.denominator))
                if cz is not None:
                    fs = [cz] + fs
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t)
            if not terms:
                r = z3.IntVal(0) if isint else z3.RealVal(0)
            else:
                r = z3.Sum(terms) if len(terms) > 1 else terms[0]
            self._z = r
        return self._z

    def bounds(self):
        """cheap interval from the atom bounds (None = unbounded)"""
        at = ATOMS.atoms
        lo, hi = 0, 0
        for m, c in self.d.items():
            mlo, mhi = 1, 1
            i = 0
            while i < len(m):
                j = i
                while j < len(m) and m[j] == m[i]:
                    j += 1
                a, e = at[m[i]], j - i
                alo, ahi = a.lo, a.hi
                if e % 2 == 0:
                    if alo is not None and ahi is not None:
                        if alo >= 0:
                            l, h = alo ** e, ahi ** e
                        elif ahi <= 0:
                            l, h = ahi ** e, alo ** e
                        else:
                            l, h = 0, max(alo ** e, ahi ** e)
                    elif alo is not None and alo >= 0:
                        l, h = alo ** e, None
                    elif ahi is not None and ahi <= 0:
                        l, h = ahi ** e, None
                    else:
                        l, h = 0, None
                else:
                    l = alo ** e if alo is not None else None
                    h = ahi ** e if ahi is not None else None
                mlo, mhi = _imul(mlo, mhi, l, h)
                i = j
            if c > 0:
                l = None if mlo is None else mlo * c
                h = None if mhi is None else mhi * c
            else:
                l = None if mhi is None else mhi * c
                h = None if mlo is None else mlo * c
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
            if lo is None and hi is None:
                break
        return lo, hi

    def content_normal(self):
        """(poly/content with positive leading coefficient in a fixed order, sign)"""
        if not self.d:
            return self, 1
        den = 1
        for c in self.d.values():
            if type(c) is Fraction:
                den = den * c.denominator // _igcd(den, c.denominator)
        num = 0
        for c in self.d.values():
            num = _igcd(num, int(c * den))
        f = Fraction(den, num)
        lead = self.d[min(self.d)] if () not in self.d or len(self.d) == 1 else self.d[min(m for m in self.d if m)]
        sgn = 1 if lead > 0 else -1
        return self.scale(f * sgn), sgn

    def __repr__(self):
        at = ATOMS.atoms
        if not self.d:
            return '0'
        out = []
        for m, c in sorted(self.d.items()):
            out.append('*'.join([str(c)] + [at[i].name for i in m]))
        return ' + '.join(out)


def _lead(d):
    # graded, then lexicographic on exponents: compatible with multiplication
    return max(d, key=lambda m: (len(m), _expo(m)))


def _expo(m):
    r = {}
    for i in m:
        r[i] = r.get(i, 0) + 1
    return tuple(sorted(((-i, e) for i, e in r.items()), reverse=True))


def _mono_div(m, k):
    m = list(m)
    for i in k:
        if i not in m:
            return None
        m.remove(i)
    return tuple(m)


def poly_divexact(n, d):
    """the polynomial n/d, or None when the division does not come out even (or is not found to)"""
    if not d.d:
        return None
    if d.is_const():
        return n.scale(Fraction(1) / d.const_val())
    ld = _lead(d.d)
    cd = d.d[ld]
    q, r = ZERO, n
    for _ in range(200):
        if not r.d:
            return q
        lm = _lead(r.d)
        m = _mono_div(lm, ld)
        if m is None:
            return None
        t = Poly({m: _norm(Fraction(r.d[lm]) / cd)})
        q = q + t
        r = r - t * d
    return None


def poly_sqrt(p):
    """w with w*w == p, or None"""
    from math import isqrt
    if not p.d:
        return ZERO
    lm = _lead(p.d)
    c = Fraction(p.d[lm])
    if c < 0 or len(lm) % 2:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    if any(lm[i] != lm[i + 1] for i in range(0, len(lm), 2)):
        return None
    lw = tuple(lm[::2])
    lead = Poly({lw: _norm(Fraction(a, b))})
    w, r = lead, p - lead * lead
    for _ in range(100):
        if not r.d:
            return w
        rm = _lead(r.d)
        m = _mono_div(rm, lw)
        if m is None:
            return None
        t = Poly({m: _norm(Fraction(r.d[rm]) / (2 * Fraction(a, b)))})
        r = r - (w + w + t) * t
        w = w + t
    return None


def _imul(l1, h1, l2, h2):
    if l1 is not None and h1 is not None and l2 is not None and h2 is not None:
        v = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
        return min(v), max(v)
    # only handle the non-negative case for half-open intervals
    if l1 is not None and l1 >= 0 and l2 is not None and l2 >= 0:
        return l1 * l2, (h1 * h2 if h1 is not None and h2 is not None else None)
    return None, None


ZERO = Poly({})
ONE = Poly({(): 1})


# ---------------------------------------------------------------- engine
class Stats(object):
    def __init__(self):
        self.paths = self.infeasible = self.branches = self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.asserts = self.asserts_trivial = self.asserts_solver = 0
        self.max_depth = 0
        self.concretized = 0

    def merge(self, o):
        for k, v in o.__dict__.items():
            if k == 'max_depth':
                self.max_depth = max(self.max_depth, v)
            else:
                setattr(self, k, getattr(self, k) + v)


class Decision(object):
    __slots__ = ('kind', 'val', 'val2')

    def __init__(self, kind, val, val2=None):
        self.kind, self.val, self.val2 = kind, val, val2

    def __repr__(self):
        return '%s:%s:%s' % (self.kind, self.val, self.val2)


class Engine(object):
    def __init__(self, timeout_ms=20000, max_paths=100000, deadline=None, seed=1):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.seed = seed
        self.stack = []
        self.on_violation = None
        self.unknown_asserts = []
        self.pending_tokens = {}

    # ---- path lifecycle
    def start_path(self, prefix, model):
        self.prefix = prefix
        self.decisions = []
        self.pos = 0
        self.model = dict(model) if model is not None else None
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.solver.set('random_seed', self.seed)
        self.pc = []
        self.known = {}
        self.defined = set()
        self.inputs = {}
        self.observations = []
        self.violations = []
        self.evalcache = {}
        self.reals = []

    def explore(self, fn, on_path=None):
        """Run fn() on every feasible path. on_path(engine, outcome) is called after each complete path."""
        global ENGINE
        ENGINE = self
        self.stack = [([], {})]
        while self.stack:
            prefix, model = self.stack.pop()
            if self.stats.paths >= self.max_paths:
                raise Budget('more than %d paths' % self.max_paths)
            if self.deadline is not None and time.time() > self.deadline:
                raise Budget('deadline')
            self.start_path(prefix, model)
            outcome = 'done'
            self.reason = None
            try:
                fn()
            except PathAbort:
                outcome = 'abort'
            except Violated:
                outcome = 'violated'
            except Unsupported as e:
                outcome, self.reason = 'unsupported', str(e)
            except Budget as e:
                if self.deadline is not None and time.time() > self.deadline:
                    raise
                outcome, self.reason = 'unsupported', str(e)
            if self.pos < len(self.prefix) and outcome not in ('abort', 'unsupported'):
                raise Unsupported('non-deterministic re-execution')
            if outcome == 'abort':
                self.stats.infeasible += 1
            else:
                self.stats.paths += 1
            self.stats.max_depth = max(self.stats.max_depth, len(self.decisions))
            if on_path is not None:
                on_path(self, outcome)
                if self.stopped:
                    return

    stopped = False

    # ---- constraints
    def add(self, z):
        self.solver.add(z)
        self.pc.append(z)

    def use_atom(self, a):
        """make sure the bounds/definition of an atom are part of this path"""
        if a.id in self.defined:
            return
        self.defined.add(a.id)
        if a.lo is not None:
            self.add(a.z >= _zc(a.lo, a.isint))
        if a.hi is not None:
            self.add(a.z <= _zc(a.hi, a.isint))
        if a.define is not None:
            for z in a.define():
                self.add(z)
        if TABLES and a.deps is not None:
            if a.table is None:
                a.table = value_table(a)
            for z in a.table:
                self.add(z)

    def use(self, poly):
        at = ATOMS.atoms
        for i in poly.atoms():
            if i not in self.defined:
                self.use_atom(at[i])
        for m in poly.d if poly.linearizable() else ():
            if len(m) > 1 and m not in self.defined:
                self.defined.add(m)
                t = mono(m)
                if t is not None:
                    for z in t[1]:
                        self.add(z)

    # ---- evaluation under the current model
    def eval_poly(self, p):
        if self.model is None:
            return None
        tot = 0
        for m, c in p.d.items():
            v = c
            for i in m:
                x = self.eval_atom(i)
                if x is None:
                    return None
                v = v * x
            tot += v
        return tot

    def eval_atom(self, i):
        if i in self.model:
            return self.model[i]
        a = ATOMS.atoms[i]
        if a.evalf is not None:
            try:
                v = a.evalf(self.eval_poly)
            except (ZeroDivisionError, TypeError, ValueError):
                v = None
            if v is not None:
                self.model[i] = v
            return v
        if a.define is None:
            v = 0
            if a.lo is not None and v < a.lo:
                v = a.lo
            if a.hi is not None and v > a.hi:
                v = a.hi
            self.model[i] = v
            return v
        return None

    def model_from_z3(self, zm):
        m = {}
        at = ATOMS.atoms
        for d in zm.decls():
            i = self.name2id(d.name())
            if i is None:
                continue
            v = zm[d]
            if z3.is_int_value(v):
                m[i] = v.as_long()
            elif z3.is_rational_value(v):
                m[i] = _norm(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            else:
                pass
        # algebraic values are left out (evaluation falls back to the solver)
        alg = [d.name() for d in zm.decls() if z3.is_algebraic_value(zm[d])]
        self.alg = alg
        for n in alg:
            i = self.name2id(n)
            if i is not None and at[i].evalf is None and at[i].define is None:
                return None
        return m

    _names = {}

    def name2id(self, n):
        i = self._names.get(n)
        if i is None:
            for a in ATOMS.atoms:
                self._names[a.name] = a.id
            i = self._names.get(n)
        return i

    def check(self, extra, want_model=True):
        """('sat', model|None) / ('unsat', None) / ('unknown', None)"""
        self.stats.queries += 1
        t = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        m = None
        if r == z3.sat and want_model:
            m = self.model_from_z3(self.solver.model())
        self.solver.pop()
        if r == z3.unknown:
            r, m = self._fallback(extra, want_model)
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            self.stats.sat += 1
            return 'sat', m
        if r == z3.unsat:
            self.stats.unsat += 1
            return 'unsat', None
        self.stats.unknown += 1
        return 'unknown', None

    def _fallback(self, extra, want_model):
        for mk in (lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver(),
                   lambda: z3.Tactic('qfnra-nlsat').solver(),
                   lambda: z3.SolverFor('QF_NIA')):
            try:
                s = mk()
                s.set('timeout', self.timeout_ms)
                for e in self.pc:
                    s.add(e)
                for e in extra:
                    s.add(e)
                r = s.check()
                if r != z3.unknown:
                    return r, (self.model_from_z3(s.model()) if r == z3.sat and want_model else None)
            except z3.Z3Exception:
                pass
        return z3.unknown, None

    # ---- branching
    def branch(self, cond, key, evalf):
        """cond: z3 BoolRef; key: hashable canonical key; evalf(): True/False/None under the current model"""
        k = self.known.get(key)
        if k is not None:
            return k
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d.kind != 'b':
                raise Unsupported('non-deterministic re-execution')
            val = d.val
            self.decisions.append(d)
            self.add(cond if val else z3.Not(cond))
            self.known[key] = val
            return val
        if len(self.decisions) > 5000:
            raise Budget('path too long')
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('deadline')
        side = evalf()
        if side is None:
            st, m = self.check([cond])
            if st == 'unsat':
                side, other_known = False, 'unsat'
                # the path itself is feasible (or unknown), so the negation is implied
                self._take(cond, key, False)
                return False
            side = True
            self.model = m if st == 'sat' else None
        neg = z3.Not(cond) if side else cond
        st, m = self.check([neg])
        if st != 'unsat':
            self.stack.append((self.decisions + [Decision('b', not side)], m if st == 'sat' else None))
        self._take(cond, key, side)
        return side

    def _take(self, cond, key, val):
        self.decisions.append(Decision('b', val))
        self.add(cond if val else z3.Not(cond))
        self.known[key] = val

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise PathAbort()
        ev = b.eval()
        self.add(b.zexpr())
        self.known[b.key] = True
        if ev is True:
            return
        st, m = self.check([])
        if st == 'unsat':
            raise PathAbort()
        self.model = m if st == 'sat' else None

    def concretize(self, poly, what='value'):
        """fork over the (bounded) feasible values of an integer polynomial"""
        if poly.is_const():
            return poly.const_val()
        self.use(poly)
        n = 0
        while True:
            n += 1
            if n > 400:
                raise Unsupported('concretisation of %s has too many values' % what)
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if d.kind != 'v':
                    raise Unsupported('non-deterministic re-execution')
                self.pos += 1
                self.decisions.append(d)
                v = d.val
                eq = poly.z() == v
                if d.val2:
                    self.add(eq)
                    return v
                self.add(z3.Not(eq))
                continue
            v = self.eval_poly(poly)
            if v is None:
                st, m = self.check([])
                if st == 'unsat':
                    raise PathAbort()
                if m is None:
                    raise Unsupported('cannot concretise %s' % what)
                self.model = m
                v = self.eval_poly(poly)
                if v is None:
                    raise Unsupported('cannot concretise %s' % what)
            if type(v) is Fraction:
                raise Unsupported('concretisation of a non-integer')
            self.stats.concretized += 1
            eq = poly.z() == v
            st, m = self.check([z3.Not(eq)])
            if st != 'unsat':
                self.stack.append((self.decisions + [Decision('v', v, False)], m if st == 'sat' else None))
            self.decisions.append(Decision('v', v, True))
            self.add(eq)
            return v

    # ---- assertions
    def prove(self, b, label):
        """b: bool or SymBool that must hold on this path"""
        self.stats.asserts += 1
        if b is True:
            self.stats.asserts_trivial += 1
            return True
        if b is False:
            # any model of the path is a counterexample
            st, m = self.check([])
            if st == 'unsat':
                raise PathAbort()
            self.violation(label, [], st, m)
            raise Violated()
        if self.known.get(b.key) is True:
            self.stats.asserts_trivial += 1
            return True
        self.stats.asserts_solver += 1
        st, m = self.check([z3.Not(b.zexpr())])
        if st == 'unsat':
            return True
        if st == 'unknown':
            self.unknown_asserts.append(label)
            return True
        self.violation(label, [z3.Not(b.zexpr())], st, m)
        raise Violated()

    def nice_model(self, extra, dyadic_bits=(12, 44, 90)):
        """a model whose real inputs are dyadic (exactly representable on the real runtime), if there is one"""
        rs = [a for a in self.inputs.values() if a is not None and not a.isint]
        tries = []
        if rs:
            for k in dyadic_bits:
                cs = []
                for a in rs:
                    n = z3.Int('dy!%d' % a.id)
                    cs.append(z3.ToReal(n) == a.z * z3.RealVal(2 ** k))
                tries.append(cs)
        tries.append([])
        for cs in tries:
            st, m = self.check(list(extra) + cs)
            if st == 'sat' and m is not None:
                return m
        return None

    def violation(self, label, extra, st, m):
        nm = self.nice_model(extra)
        if nm is None:
            nm = m
        self.violations.append((label, self.input_values(nm) if nm is not None else None))

    def input_values(self, model):
        """name -> int | Fraction for the inputs of this path under model"""
        save = self.model
        self.model = dict(model)
        out = {}
        for name, a in self.inputs.items():
            if a is None:
                continue
            v = self.eval_atom(a.id)
            out[name] = v
        self.model = save
        return out


def _zc(c, isint):
    if isint:
        return z3.IntVal(int(c))
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator)


# ---------------------------------------------------------------- symbolic booleans
class SymBool(object):
    __slots__ = ('_z', 'key', 'evalf', 'polys')
    _vt_symbolic = True

    def __init__(self, z, key, evalf, polys=()):
        self._z, self.key, self.evalf, self.polys = z, key, evalf, polys

    def zexpr(self):
        for p in self.polys:
            ENGINE.use(p)
        return self._z() if callable(self._z) and not z3.is_expr(self._z) else self._z

    def eval(self):
        return self.evalf()

    def __bool__(self):
        e = ENGINE
        k = e.known.get(self.key)
        if k is not None:
            return k
        return e.branch(self.zexpr(), self.key, self.evalf)

    def _neg(self):
        return sym_not(self)

    def __invert__(self):
        raise Unsupported('~ on a symbolic boolean')

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sym_and(self, o)
        return int(bool(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sym_or(self, o)
        return int(bool(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sym_not(sym_iff(self, o))
        return int(bool(self)) ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sym_iff(self, o)
        return bool(self) == o

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sym_not(sym_iff(self, o))
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __lt__(self, o):
        return int(bool(self)) < o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __le__(self, o):
        return int(bool(self)) <= o

    def __ge__(self, o):
        return int(bool(self)) >= o

    @property
    def __class__(self):
        return bool

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)


def is_symbool(x):
    return type(x) is SymBool


def sym_not(b):
    if type(b) is not SymBool:
        return not b
    if b.key[0] == 'not':
        k = b.key[1]
    else:
        k = ('not', b.key)

    def ev():
        v = b.evalf()
        return None if v is None else not v
    r = SymBool(lambda: z3.Not(b.zexpr()), k, ev)
    # keep "known" consistent between a condition and its negation
    kn = ENGINE.known.get(b.key)
    if kn is not None:
        return not kn
    return r


def _nary(op, bs):
    absorbing = (op == 'or')
    out, seen = [], set()
    for b in bs:
        if type(b) is not SymBool:
            if bool(b) == absorbing:
                return absorbing
            continue
        kn = ENGINE.known.get(b.key)
        if kn is not None:
            if kn == absorbing:
                return absorbing
            continue
        if b.key not in seen:
            seen.add(b.key)
            out.append(b)
    if not out:
        return not absorbing
    if len(out) == 1:
        return out[0]

    def ev():
        unk = False
        for b in out:
            v = b.evalf()
            if v is None:
                unk = True
            elif v == absorbing:
                return absorbing
        return None if unk else (not absorbing)
    f = z3.Or if op == 'or' else z3.And
    return SymBool(lambda: f(*[b.zexpr() for b in out]), (op, frozenset(b.key for b in out)), ev)


def sym_and(*bs):
    return _nary('and', bs)


def sym_or(*bs):
    return _nary('or', bs)


def sym_implies(a, b):
    return sym_or(sym_not(a), b)


def sym_iff(a, b):
    if type(a) is not SymBool and type(b) is not SymBool:
        return bool(a) == bool(b)
    if type(a) is not SymBool:
        return b if a else sym_not(b)
    if type(b) is not SymBool:
        return a if b else sym_not(a)
    if a.key == b.key:
        return True

    def ev():
        x, y = a.evalf(), b.evalf()
        return None if x is None or y is None else x == y
    return SymBool(lambda: a.zexpr() == b.zexpr(), ('iff', frozenset((a.key, b.key))), ev)


def sym_ite_bool(c, a, b):
    return sym_or(sym_and(c, a), sym_and(sym_not(c), b))


def cmp_zero(p, op):
    """condition on a polynomial: op in 'eq','lt','le' (p op 0); returns bool or SymBool"""
    if p.is_const():
        c = p.const_val()
        return c == 0 if op == 'eq' else (c < 0 if op == 'lt' else c <= 0)
    lo, hi = p.bounds()
    if op == 'eq':
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
    elif op == 'lt':
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    else:
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    q, s = p.content_normal()
    # normalised keys: q==0 ; q<0 ; q<=0  with the sign folded in:
    #   p<0, s=+1: q<0        p<0, s=-1: q>0  == not(q<=0)
    if op == 'eq':
        # integer infeasibility by gcd of the non-constant part
        if q.integer_valued() and () in q.d:
            g = 0
            for m, c in q.d.items():
                if m:
                    g = _igcd(g, c)
            if g > 1 and q.d[()] % g:
                return False
        # x^2 == 0 etc. are left to the solver
        return _atomic('eq', q)
    if s > 0:
        return _atomic(op, q)
    return sym_not(_atomic('le' if op == 'lt' else 'lt', q))


HARD = None          # comparisons of polynomials above this degree are left open (sound: more paths than there are)
HARD_KEYS = {}


def _atomic(op, q):
    key = (op, q.key())
    kn = ENGINE.known.get(key)
    if kn is not None:
        return kn

    def ev():
        v = ENGINE.eval_poly(q)
        if v is None:
            return None
        return v == 0 if op == 'eq' else (v < 0 if op == 'lt' else v <= 0)

    def mk():
        if HARD is not None and op != 'eq' and q.degree() > HARD:
            # undecided on purpose: either outcome is explored
            return z3.Bool('hard!%s!%d' % (op, HARD_KEYS.setdefault(q.key(), len(HARD_KEYS))))
        z = q.z()
        return z == 0 if op == 'eq' else (z < 0 if op == 'lt' else z <= 0)
    return SymBool(mk, key, ev, (q,))
