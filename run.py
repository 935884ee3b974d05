#!/usr/bin/env python3-vt
"""Driver: python3-vt run.py <property> [--tier quick|thorough] [--case N] [--replay FILE] [-v]"""
import argparse
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VT_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
sys.setrecursionlimit(20000)


def frac(v):
    if isinstance(v, Fraction):
        return '%d/%d' % (v.numerator, v.denominator)
    return int(v)


class TooLong(BaseException):
    pass


def run_case(job):
    """symbolic exploration of one case (child process)"""
    module, idx, params, opts, deadline = job
    from vt import core, symenv
    sc = importlib.import_module('props.' + module)
    t0 = time.time()
    eng = core.Engine(timeout_ms=opts.get('timeout_ms', 20000), max_paths=opts.get('max_paths', 60000),
                      deadline=min(deadline, t0 + opts.get('deadline', 1e9)), seed=opts.get('seed', 1))
    core.TABLES = bool(opts.get('tables'))
    funcs = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'vt')
    except ValueError:
        pass

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + '/'):
            funcs.add(fn[len(REPO) + 1:-3] + '.' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)
    viol, wit, undec, unk = [], [], [], []
    cov = {}
    nxt = [1]
    max_wit = opts.get('witnesses', 4)

    limit = opts.get('path_limit', 100)
    started = [time.time()]

    def late(*a):
        raise TooLong()
    signal.signal(signal.SIGALRM, late)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass

    def fn():
        started[0] = time.time()
        signal.setitimer(signal.ITIMER_REAL, limit, 5)
        try:
            try:
                one_path()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except TooLong:
            eng.hung = True
            raise core.Unsupported('a path runs for more than %d s' % limit)

    def one_path():
        env = symenv.SymEnv(eng)
        try:
            sc.run(env, **params)
        except Exception as e:
            tb = traceback.format_exc()
            eng.violation_exc = tb
            st, m = eng.check([])
            if st == 'unsat':
                raise core.PathAbort()
            eng.violation('unexpected %s' % type(e).__name__, [], st, m)
            eng.violations[-1] = eng.violations[-1] + (tb[-1800:],)
            raise core.Violated()
        finally:
            env.cleanup()

    def ser(inp):
        return {k: frac(v) for k, v in inp.items() if v is not None}

    def on_path(e, outcome):
        for v in e.violations:
            if v[1] is not None:
                viol.append({'label': v[0], 'inputs': ser(v[1]), 'trace': v[2] if len(v) > 2 else None})
            else:
                undec.append('violation without a usable model: %s' % v[0])
        if outcome == 'unsupported':
            m = None
            try:
                m = e.nice_model([])
            except Exception:
                pass
            undec.append(e.reason)
            if m is not None and len(wit) < 40:
                wit.append({'inputs': ser(e.input_values(m)), 'kind': 'undecided', 'obs': None,
                            'hang': getattr(e, 'hung', False) or 'path too long' in e.reason})
            if len(undec) > 12 or getattr(e, 'hung', False):
                e.stopped = True
        if outcome == 'done':
            n = e.stats.paths
            if n >= nxt[0] and sum(w['kind'] == 'witness' for w in wit) < max_wit:
                nxt[0] = n * 3 if n > 1 else 2
                m = e.nice_model([], dyadic_bits=(12, 40))
                if m is not None:
                    e.model = dict(m)
                    obs = None if getattr(e, 'uf_used', False) else [(k, render(e, v)) for k, v in e.observations]
                    wit.append({'inputs': ser(e.input_values(m)), 'kind': 'witness', 'obs': obs})
        if e.unknown_asserts:
            unk.extend(e.unknown_asserts)
            e.unknown_asserts = []
        e.uf_used = False
        if len(viol) >= 8:
            e.stopped = True
    err = None
    try:
        eng.explore(fn, on_path)
    except core.Budget as e:
        err = 'budget: %s' % e
        if time.time() - started[0] > 30:
            # ended inside one long path: perhaps it does not terminate; the real code decides
            try:
                m = eng.nice_model([])
                if m is not None:
                    wit.append({'inputs': ser(eng.input_values(m)), 'kind': 'undecided', 'obs': None, 'hang': True})
            except Exception:
                pass
    except core.Unsupported as e:
        err = 'unsupported: %s' % e
    except Exception:
        err = traceback.format_exc()[-1500:]
    mon.set_events(3, 0)
    if err:
        undec.append(err)
    return {'idx': idx, 'params': params, 'viol': viol, 'wit': wit, 'undec': undec, 'unknown': unk,
            'stats': eng.stats.__dict__, 'funcs': sorted(funcs), 't': time.time() - t0}


def render(e, v):
    """observation under the current model"""
    from vt import core, num, strs, shims
    if isinstance(v, (list, tuple)):
        return [render(e, x) for x in v]
    if type(v) is core.SymBool:
        r = v.eval()
        return '?' if r is None else bool(r)
    if isinstance(v, dict):
        return [[render(e, k), render(e, x)] for k, x in v.items()]
    if isinstance(v, bool) or v is None:
        return v
    if type(v) is num.SymInt:
        r = e.eval_poly(v.p)
        return '?' if r is None else 'i%d' % r
    if type(v) is int:
        return 'i%d' % v
    if isinstance(v, num.SymReal):
        if v.sp:
            return 'r' + v.sp
        a, b = e.eval_poly(v.n), e.eval_poly(v.d)
        if a is None or not b:
            return '?'
        import mpmath
        with mpmath.workdps(60):
            f = Fraction(a) / Fraction(b)
            return 'r' + mpmath.nstr(mpmath.mpf(f.numerator) / f.denominator, 18)
    if type(v) is float:
        import mpmath
        return 'r' + ('nan' if v != v else mpmath.nstr(mpmath.mpf(v), 18))
    if isinstance(v, str):
        if type(v) is strs.DecStr:
            return '?'
        if strs.has_tok(v):
            out = []
            for ch in v:
                if ch >= '\U000F0000':
                    k = strs.tok_val(ch)
                    if k[0] != 'int':
                        return '?'
                    r = e.eval_poly(k[1])
                    if r is None:
                        return '?'
                    out.append(str(r))
                else:
                    out.append(ch)
            return 's' + ''.join(out)
        return 's' + v
    if isinstance(v, BaseException):
        return 'e' + type(v).__name__
    return '?'


def obs_same(a, b):
    if a == '?' or b == '?':
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return True
        if a[:1] in 'ri' and b[:1] in 'ri':
            try:
                x, y = float(a[1:]), float(b[1:])
            except (ValueError, OverflowError):
                return False
            if x != x or y != y:
                return x != x and y != y
            return x == y or abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))
        return False
    return a == b


def concrete(jobs, timeout):
    """run scenario inputs on the real runtime"""
    if not jobs:
        return {}
    # inputs on which the code may not terminate: a few, each in a process of its own
    hang = [j for j in jobs if j.get('timeout')][:3]
    jobs = [j for j in jobs if not j.get('timeout')]
    n = min(6, max(1, len(jobs) // 8))
    chunks = [c for c in [jobs[i::n] for i in range(n)] + [[j] for j in hang] if c]
    procs = []
    base = tempfile.mkdtemp(prefix='vtrun')
    env = dict(os.environ, PYTHONINTMAXSTRDIGITS='0', PYTHONDONTWRITEBYTECODE='1', VT_REPO=REPO)
    for i, c in enumerate(chunks):
        a, b = os.path.join(base, 'j%d.json' % i), os.path.join(base, 'o%d.json' % i)
        json.dump(c, open(a, 'w'))
        procs.append((subprocess.Popen([PYPY, '-W', 'ignore', os.path.join(HERE, 'vt', 'cenv.py'), a, b], cwd=base,
                                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), b))
    out = {}
    end = time.time() + timeout
    for p, b in procs:
        try:
            _, e = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            continue
        if os.path.exists(b):
            for r in json.load(open(b)):
                out[r['id']] = r
        else:
            sys.stderr.write('concrete runner failed: %s\n' % e.decode(errors='replace')[-1500:])
    import shutil
    shutil.rmtree(base, ignore_errors=True)
    return out


class Workers(object):
    """one forked process per case, a few at a time (forked from this only thread, so that no lock is inherited)"""

    def __init__(self, jobs, n):
        self.ctx = multiprocessing.get_context('fork')
        self.waiting, self.n, self.running = list(jobs), n, {}

    def __len__(self):
        return len(self.waiting) + len(self.running)

    def _start(self, job):
        rd, wr = self.ctx.Pipe(duplex=False)
        sys.stdout.flush()
        sys.stderr.flush()
        p = self.ctx.Process(target=self._child, args=(job, wr), daemon=True)
        p.start()
        wr.close()
        self.running[rd] = (p, job)

    @staticmethod
    def _child(job, wr):
        try:
            wr.send(run_case(job))
        except Exception as e:
            sys.stderr.write('case failed: %r\n' % e)
        finally:
            sys.stderr.flush()
            wr.close()
            os._exit(0)

    def results(self):
        """the (job, result) pairs that are ready now; result None for a worker that died"""
        while self.waiting and len(self.running) < self.n:
            self._start(self.waiting.pop(0))
        out = []
        for c in multiprocessing.connection.wait(list(self.running), 0.5):
            p, job = self.running.pop(c)
            try:
                r = c.recv()
            except Exception:
                r = None
            c.close()
            p.join(20)
            if p.is_alive():
                p.kill()
                p.join()
            out.append((job, r))
        return out

    def abandon(self):
        out = [(job, None) for job in self.waiting]
        self.waiting = []
        for c, (p, job) in self.running.items():
            p.kill()
            p.join()
            c.close()
            out.append((job, None))
        self.running = {}
        return out


def known(pid):
    out = []
    f = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d['property'] == pid and d['status'] == 'known':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--limit', type=float, default=None)
    a = ap.parse_args()
    pid = a.prop.upper()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sc = importlib.import_module('props.' + pid.lower())
    if a.replay:
        j = json.load(open(a.replay))
        r = concrete([{'id': '0', 'module': j['module'], 'params': j['params'], 'inputs': j['inputs']}], 300)
        print(json.dumps(r, indent=1))
        return 1 if r.get('0', {}).get('status') in ('failed', 'exception', 'timeout') else 0
    cases = sc.cases(a.tier)
    limit = a.limit or (560 if a.tier == 'quick' else 3000)
    deadline = t0 + limit
    jobs = []
    for i, c in enumerate(cases):
        c = dict(c)
        opts = c.pop('_opts', {})
        opts.setdefault('seed', seed)
        opts.setdefault('path_limit', 100 if a.tier == 'quick' else 400)
        if a.case is None or a.case == i:
            jobs.append((pid.lower(), i, c, opts, deadline))
    # heavier cases first
    order = sorted(jobs, key=lambda j: -j[3].get('weight', 1))
    res = []
    confirmed_early, tried = None, 0
    work = Workers(order, a.jobs)
    try:
        while work:
            now = time.time()
            over = now > deadline + 60 or (confirmed_early is not None and now > confirmed_early + 40)
            for j, r in work.abandon() if over else work.results():
                if r is not None and r['viol'] and confirmed_early is None and tried < 5 and not known(pid):
                    # one confirmed counterexample decides the run: the remaining cases get little more time
                    tried += 1
                    v = r['viol'][0]
                    o = concrete([{'id': 'e', 'module': pid.lower(), 'params': r['params'], 'inputs': v['inputs']}], 60).get('e')
                    if o and o['status'] in ('failed', 'exception'):
                        confirmed_early = time.time()
                elif r is not None and confirmed_early is None and tried < 5 and any(w.get('hang') for w in r['wit']):
                    tried += 1
                    w = [w for w in r['wit'] if w.get('hang')][0]
                    o = concrete([{'id': 'e', 'module': pid.lower(), 'params': r['params'], 'inputs': w['inputs'],
                                   'timeout': 40}], 60).get('e')
                    if o and o['status'] == 'timeout':
                        confirmed_early = time.time() - 40
                if r is None:
                    r = {'idx': j[1], 'params': j[2], 'viol': [], 'wit': [], 'undec': ['no result'], 'unknown': [],
                         'stats': {}, 'funcs': [], 't': 0}
                res.append(r)
                if a.v:
                    s = r['stats']
                    print('case %d %s: %.1fs paths=%s queries=%s solver=%.1fs viol=%d undec=%s unk=%d' % (
                        r['idx'], json.dumps(r['params'])[:100], r['t'], s.get('paths'), s.get('queries'),
                        s.get('solver_s', 0), len(r['viol']), r['undec'][:2], len(r['unknown'])), flush=True)
                    for v in r['viol'][:2]:
                        print('   ', v['label'], v['inputs'], '\n' + v['trace'] if v['trace'] else '')
    finally:
        work.abandon()
    # concrete confirmation on the real runtime
    cj, meta = [], {}
    for r in res:
        for k, v in enumerate(r['viol']):
            i = 'v%d.%d' % (r['idx'], k)
            cj.append({'id': i, 'module': pid.lower(), 'params': r['params'], 'inputs': v['inputs']})
            meta[i] = ('viol', r, v)
        for k, w in enumerate(r['wit']):
            i = 'w%d.%d' % (r['idx'], k)
            cj.append({'id': i, 'module': pid.lower(), 'params': r['params'], 'inputs': w['inputs']})
            if w.get('hang'):
                cj[-1]['timeout'] = 40
            meta[i] = (w['kind'], r, w)
    # bounded number of violation replays
    tconc = time.time()
    out = concrete(cj, 240)
    tconc = time.time() - tconc
    validated, confirmed, mism, knownhits = 0, [], [], {}
    kn = known(pid)
    for i, (kind, r, x) in meta.items():
        o = out.get(i)
        if kind == 'viol':
            if o and o['status'] in ('failed', 'exception'):
                lab = o.get('label') or x['label']
                hit = None
                for d in kn:
                    if re.search(d['match'], lab) or re.search(d['match'], x['label']):
                        hit = d
                if hit:
                    knownhits[hit['id']] = hit
                else:
                    confirmed.append((r, x, o))
            elif o and o['status'] == 'timeout':
                x = dict(x, label='the code does not terminate on these inputs (first: %s)' % x['label'])
                confirmed.append((r, x, o))
            else:
                mism.append('counterexample not reproduced on the real code: case %d %s %s -> %s' % (
                    r['idx'], x['label'], x['inputs'], o and o['status']))
        else:
            if o is not None and o['status'] == 'timeout' and x.get('hang'):
                # neither the exploration of the path nor the real code (40 s) came to an end
                x = dict(x, label='the code does not terminate on these inputs', trace=None)
                confirmed.append((r, x, o))
            elif o is None or o['status'] == 'timeout':
                mism.append('no concrete result for case %d' % r['idx'])
            elif o['status'] == 'failed' or o['status'] == 'exception':
                lab = o.get('label', '')
                if not any(re.search(d['match'], lab) for d in kn):
                    x = dict(x, label=lab, trace=o.get('trace'))
                    confirmed.append((r, x, o))
            elif o['status'] == 'assume':
                mism.append('witness rejected by an assumption: case %d %s' % (r['idx'], x['inputs']))
            elif kind == 'witness':
                if x['obs'] is not None and not obs_same([list(t) for t in x['obs']], [list(t) for t in o['obs']]):
                    mism.append('observations differ: case %d %s\n  model %s\n  real  %s' % (
                        r['idx'], x['inputs'], x['obs'], o['obs']))
                else:
                    validated += 1
    tot = {}
    for r in res:
        for k, v in r['stats'].items():
            tot[k] = max(tot.get(k, 0), v) if k == 'max_depth' else tot.get(k, 0) + v
    funcs = sorted(set(f for r in res for f in r['funcs']))
    und = [(r['idx'], u) for r in res for u in r['undec']] + [(r['idx'], 'solver unknown: ' + u)
                                                              for r in res for u in r['unknown']]
    for m in mism:
        if m.startswith('counterexample not'):
            und.append((-1, m))
    decided = sum(1 for r in res if not r['undec'] and not r['unknown'] and not r['viol'])
    for h in knownhits.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, h['what']))
    seen = set()
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    for r, x, o in confirmed:
        lab = o.get('label') or x['label']
        key = re.sub(r'\d+', '#', lab)
        if key in seen:
            continue
        seen.add(key)
        p = os.path.join(ev_dir, 'replay_%s_%d.json' % (pid, len(seen)))
        json.dump({'module': pid.lower(), 'params': r['params'], 'inputs': x['inputs'], 'label': lab,
                   'trace': o.get('trace')}, open(p, 'w'), indent=1)
        if len(seen) <= 6:
            print('  counterexample: %s  case %s inputs %s' % (lab, json.dumps(r['params']), json.dumps(x['inputs'])))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    for i, u in und[:20]:
        print('UNDECIDED case %d: %s' % (i, u))
    for m in mism[:10]:
        print('MISMATCH %s' % m)
    wall = time.time() - t0
    samples = []
    for r in res:
        for w in r['wit'][:1]:
            if w['kind'] == 'witness':
                samples.append({'case': r['params'], 'inputs': w['inputs'], 'observed': w['obs']})
    ev = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': 'model_checking',
          'coverage': {
              'states': tot.get('paths', 0), 'transitions': tot.get('branches', 0) + tot.get('concretized', 0),
              'traces_validated_against_impl': validated, 'samples': samples[:6],
              'meaning': 'states = feasible symbolic paths explored to the end; transitions = solver-decided branch '
                         'points; traces = path models re-run on the real runtime with agreeing observations',
              'cases': len(res), 'cases_fully_decided': decided, 'undecided': ['case %d: %s' % u for u in und[:30]],
              'encoding_mismatches': mism[:10], 'infeasible_paths': tot.get('infeasible', 0),
              'functions_encoded': funcs, 'bounds': sc.BOUNDS if isinstance(sc.BOUNDS, str) else
              sc.BOUNDS[a.tier if a.tier in sc.BOUNDS else 'quick'],
              'queries': tot.get('queries', 0), 'queries_sat': tot.get('sat', 0), 'queries_unsat': tot.get('unsat', 0),
              'queries_unknown': tot.get('unknown', 0), 'solver_s': round(tot.get('solver_s', 0), 2),
              'assertions': tot.get('asserts', 0), 'assertions_by_solver': tot.get('asserts_solver', 0),
              'assertions_by_normal_form': tot.get('asserts_trivial', 0), 'replay_s': round(tconc, 1),
              'exhaustive': False},
          'assumptions': list(sc.ASSUMPTIONS) + COMMON, 'wall_s': round(wall, 1), 'violations': len(seen)}
    if not a.no_evidence and a.case is None:
        json.dump(ev, open(os.path.join(ev_dir, pid + '.json'), 'w'), indent=1)
    print('%s %s: %d cases (%d fully decided), %d paths, %d assertions, %d queries (%.1fs solver), %d traces '
          'validated, %d mismatches, %d violations, %.1fs' % (
              pid, a.tier, len(res), decided, tot.get('paths', 0), tot.get('asserts', 0), tot.get('queries', 0),
              tot.get('solver_s', 0), validated, len(mism), len(seen), wall))
    if confirmed:
        return 1
    # nothing decided at all is an error of the check; partly decided is reported as such (UNDECIDED/MISMATCH lines)
    if (decided == 0 and not knownhits) or not tot.get('paths'):
        return 2
    return 0


COMMON = ['numbers are exact in the model: rounding of mpmath at the working precision and of floats is outside it',
          'third-party libraries are replaced by exact models (see DESIGN.md); path models are re-run on the real '
          'libraries']

if __name__ == '__main__':
    sys.exit(main())
