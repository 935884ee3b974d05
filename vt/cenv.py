"""Concrete scenario environment: the scenario runs on the real interpreter and the real libraries with the inputs of
a solver model."""
import importlib
import json
import os
import signal
import sys
import traceback
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import envbase

REPO = os.environ.get('VT_REPO', '/repo')


class CheckFailed(Exception):
    pass


class Assumption(BaseException):
    pass


class ConcreteEnv(envbase.EnvBase):
    symbolic = False

    def __init__(self, inputs):
        envbase.EnvBase.__init__(self)
        self.inputs = inputs
        self.observations = []
        self.failed = []
        self._patches = []
        import time
        real = time.time

        def now():
            return real() if self._clock is None else self._clock()
        self.patch(time, 'time', now)
        self.patch(time, 'perf_counter', now)
        self.patch(time, 'monotonic', now)
        self.patch(os, 'system', self.system)
        import types
        rec = envbase.PylatexRecorder.make()
        self.latex = rec
        m = types.ModuleType('pylatex')
        m.__dict__.update(rec)
        sys.modules['pylatex'] = m
        for n in [f[:-3] for f in os.listdir(REPO) if f.endswith('.py')]:
            sys.modules.pop(n, None)
        import mpmath
        mpmath.mp.dps = 15

    def patch(self, o, k, v):
        self._patches.append((o, k, getattr(o, k)))
        setattr(o, k, v)

    def cleanup(self):
        for o, k, v in reversed(self._patches):
            setattr(o, k, v)
        envbase.EnvBase.cleanup(self)

    def mod(self, name):
        m = importlib.import_module(name)
        if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO)):
            raise RuntimeError('wrong module %s' % m.__file__)
        return m

    def lib(self, name):
        return importlib.import_module(name)

    def _val(self, name, lo, hi):
        v = self.inputs.get(name)
        if v is None:
            v = 0
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._val(name, lo, hi))

    repo = REPO

    def is_num(self, x):
        return not isinstance(x, bool) and isinstance(x, int)

    def text(self, fmt, *a):
        return fmt % tuple(str(x) for x in a)

    def number(self, s):
        return int(s) if s.isdigit() else None

    def decimal(self, s):
        import mpmath
        try:
            with mpmath.workdps(400):
                return mpmath.mpf(s.strip())
        except ValueError:
            return None

    def close(self, a, b, digits):
        import mpmath
        with mpmath.workdps(400):
            a, b = self.mpf(a), self.mpf(b)
            return bool(abs(a - b) <= abs(b) * mpmath.mpf(10) ** -digits)

    def path(self, d, f):
        return os.path.join(d, f)

    def real(self, name, lo=None, hi=None, kind='mpf'):
        v = Fraction(self._val(name, lo, hi))
        if kind == 'mpf':
            return self.mpf(v)
        return float(v)

    def mpf(self, v):
        import mpmath
        if isinstance(v, Fraction):
            with mpmath.workdps(400):
                return mpmath.mpf(v.numerator) / v.denominator
        with mpmath.workdps(400):
            return mpmath.mpf(v)

    def conc(self, x):
        return x

    def assume(self, c):
        if not c:
            raise Assumption()

    def check(self, c, label):
        if not c:
            self.failed.append(label)
            raise CheckFailed(label)

    def fail(self, label):
        self.check(False, label)

    def And(self, *a):
        return all(bool(x) for x in _flat(a))

    def Or(self, *a):
        return any(bool(x) for x in _flat(a))

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def same(self, a, b):
        import mpmath
        num = (int, float, mpmath.mpf)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if mpmath.isnan(a) or mpmath.isnan(b):
                return bool(mpmath.isnan(a) and mpmath.isnan(b))
            if mpmath.isinf(a) or mpmath.isinf(b):
                return a == b
            tol = mpmath.mpf(10) ** -max(8, min(30, mpmath.mp.dps - 10))
            if isinstance(a, float) or isinstance(b, float):
                tol = mpmath.mpf('1e-9')
            return bool(abs(mpmath.mpf(a) - mpmath.mpf(b)) <= tol * max(1, abs(a), abs(b)))
        if isinstance(a, dict) and isinstance(b, dict):
            return len(a) == len(b) and all(k in b and self.same(a[k], b[k]) for k in a)
        return a == b

    def is_nan(self, x):
        import mpmath
        return isinstance(x, (float, mpmath.mpf)) and bool(mpmath.isnan(x))

    def is_inf(self, x):
        import mpmath
        return isinstance(x, (float, mpmath.mpf)) and bool(mpmath.isinf(x))

    def floor(self, x):
        import mpmath
        if isinstance(x, int):
            return x
        with mpmath.workdps(400):
            return int(mpmath.floor(x))

    def literal_digits(self, n):
        pass

    def leave_open_above(self, degree):
        pass

    def abs(self, x):
        return abs(x)

    def raises(self, f, *a, **k):
        try:
            self.result = f(*a, **k)
            return None
        except CheckFailed:
            raise
        except Exception as e:
            self.result = None
            return e

    def obs(self, name, val):
        self.observations.append((name, render(val)))

    def pickle(self, x):
        import dill
        return dill.loads(dill.dumps(x, protocol=dill.HIGHEST_PROTOCOL))

    def fn(self, name):
        import mpmath
        return {'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'cot': mpmath.cot, 'exp': mpmath.exp,
                'ln': mpmath.log, 'sqrt': mpmath.sqrt}[name]


def _flat(a):
    out = []
    for x in a:
        if isinstance(x, (list, tuple)):
            out.extend(x)
        else:
            out.append(x)
    return out


def render(v):
    import mpmath
    if isinstance(v, (list, tuple)):
        return [render(x) for x in v]
    if isinstance(v, dict):
        return [[render(k), render(x)] for k, x in v.items()]
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return 'i%d' % v
    if isinstance(v, (float, mpmath.mpf)):
        if mpmath.isnan(v):
            return 'rnan'
        if mpmath.isinf(v):
            return 'r' + ('inf' if v > 0 else '-inf')
        return 'r' + mpmath.nstr(v, 18)
    if isinstance(v, str):
        return 's' + v
    if isinstance(v, BaseException):
        return 'e' + type(v).__name__
    return '?'


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def main():
    jobs = json.load(open(sys.argv[1]))
    sys.path.insert(0, REPO)
    out = []
    signal.signal(signal.SIGALRM, _alarm)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ImportError, ValueError, OSError):
        pass
    devnull = open(os.devnull, 'w')
    real_out, real_err = sys.stdout, sys.stderr
    base = os.getcwd()
    for j in jobs:
        sc = importlib.import_module('props.' + j['module'])
        inputs = {k: (Fraction(v) if isinstance(v, str) else v) for k, v in j['inputs'].items()}
        env = ConcreteEnv(inputs)
        r = {'id': j['id'], 'status': 'ok'}
        sys.stdout = sys.stderr = devnull
        signal.alarm(j.get('timeout', 60))
        try:
            env.scratch()
            sc.run(env, **j['params'])
        except CheckFailed as e:
            r['status'], r['label'] = 'failed', str(e)
        except Assumption:
            r['status'] = 'assume'
        except Timeout:
            r['status'] = 'timeout'
        except Exception as e:
            r['status'], r['label'] = 'exception', '%s: %s' % (type(e).__name__, str(e)[:300])
            r['trace'] = traceback.format_exc()[-1500:]
        except BaseException as e:
            r['status'], r['label'] = 'exception', '%s: %s' % (type(e).__name__, str(e)[:300])
        finally:
            signal.alarm(0)
            sys.stdout, sys.stderr = real_out, real_err
            env.cleanup()
            os.chdir(base)
        r['obs'] = env.observations
        out.append(r)
    json.dump(out, open(sys.argv[2], 'w'))


if __name__ == '__main__':
    main()
