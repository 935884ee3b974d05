"""C28: stopwatch and progress iterator."""
from fractions import Fraction
ID = 'C28'
ASSUMPTIONS = ['the clock does not run backwards', 'the estimated length given to the progress iterator is positive']
BOUNDS = {'quick': 'every non-decreasing clock, up to 6 measurements, second starts and queries at any position, two stopwatches at once; '
                   'progress '
                   'iterator over up to 4 symbolic items with estimated lengths 1..9, symbolic update frequencies; durations up to 10^9 s',
          'thorough': 'as quick with up to 10 measurements and 5 items'}


def cases(tier):
    th = tier != 'quick'
    out = [dict(kind='watch', n=n) for n in range(0, 11 if th else 7)]
    out += [dict(kind='restart', n=3, at=a) for a in range(4)] + [dict(kind='two', n=3), dict(kind='repeat', n=3)]
    for n in range(0, 6 if th else 5):
        for enum in (False, True):
            out.append(dict(kind='bar', n=n, enum=enum, est=None, freq=1))
    out += [dict(kind='bar', n=3, enum=e, est=l, freq=0) for e in (False, True) for l in (1, 3, 9)]
    out += [dict(kind='barfreq', n=3), dict(kind='gen', n=3), dict(kind='noest', n=0), dict(kind='start', n=2), dict(kind='twobars', n=2)]
    out += [dict(kind='secs', n=0), dict(kind='secsint', n=0)]
    return out


def run(env, kind, n, at=None, enum=False, est=None, freq=1):
    ut = env.mod('utils')
    now = [env.real('t0', 0, 10 ** 6, kind='float')]
    env.set_clock(lambda: now[0])
    k = [0]

    def tick(B=10 ** 6):
        k[0] += 1
        now[0] = now[0] + env.real('d%d' % k[0], 0, B, kind='float')
        return now[0]
    if kind in ('watch', 'restart', 'two', 'repeat'):
        m = ut.MeasureRuntime()
        env.check(not m.is_started(), 'not started at first')
        start = tick()
        m.start_measure()
        env.check(bool(m.is_started()), 'started')
        if kind == 'two':
            other = ut.MeasureRuntime()
            env.check(not other.is_started(), 'stopwatches are independent')
            ostart = tick()
            other.start_measure()
        last, total = start, 0
        for i in range(n):
            if kind == 'restart' and i == at:
                tick()
                m.start_measure()
            t = tick()
            if kind == 'two':
                other.measure_time()
                t = tick()
            r = m.measure_time()
            env.check_same(r, t - last, 'time since the previous measurement')
            env.check(r >= 0, 'not negative')
            last, total = t, total + r
            if kind == 'repeat':
                tick()
            env.check_same(m.get_last_measured_time(), r, 'last measured time')
            env.check_same(m.get_last_measured_time(), r, 'asking again')
            env.check_same(m.get_total_runtime(), now[0] - start, 'total so far')
        if kind == 'restart' and at == n:
            tick()
            m.start_measure()
        env.check_same(total, last - start, 'measurements add up')
        t = tick()
        env.check_same(m.get_total_runtime(), t - start, 'total at any time')
        env.check(bool(m.is_started()), 'still started')
        if kind == 'two':
            env.check_same(other.get_total_runtime(), t - ostart, 'the other total')
        env.obs('total', total)
    elif kind in ('bar', 'barfreq', 'gen', 'twobars', 'start'):
        items = [env.int('item%d' % i) for i in range(n)]
        kw = {}
        if enum:
            kw['enumerate'] = True
        if est is not None:
            kw['est_len'] = est
        if kind == 'barfreq':
            freq = env.real('freq', 0, 10, kind='float')
        if freq != 1 or kind == 'barfreq':
            kw['update_freq'] = freq
        src = list(items)
        if kind == 'gen':
            src, kw['est_len'] = iter(items), 2
        if kind == 'start':
            kw['enumerate'] = True
            bar = ut.ProgressBar(src, 0, **kw)
        else:
            bar = ut.ProgressBar(src, **kw)
        got = []
        if kind == 'twobars':
            bar2 = ut.ProgressBar(list(items), enumerate=True)
            for x in bar:
                tick(100)
                i, y = next(bar2)
                env.check_same(i, len(got), 'second iterator')
                env.check_same(y, x, 'second iterator')
                got.append(x)
        else:
            for x in bar:
                got.append(x)
                tick(100)
        if enum or kind == 'start':
            env.check_same([tuple(g) for g in got], list(enumerate(items)), 'items with their index')
        else:
            env.check_same(got, items, 'items in order')
        env.check(isinstance(env.raises(lambda: next(bar)), StopIteration), 'exhausted')
    elif kind == 'noest':
        env.check(isinstance(env.raises(lambda: ut.ProgressBar(iter([1, 2]))), ValueError), 'a length is required')
    else:
        s = env.int('s', 0, 10 ** 9)
        if kind == 'secs':
            # not within 1e-6 of a tie, which the floating-point value cannot represent exactly
            e = Fraction(1, 10 ** 6)
            s = s + (env.real('lo', e, Fraction(1, 2) - e, kind='float') if env.flag('low') else
                     env.real('hi', Fraction(1, 2) + e, 1 - e, kind='float'))
        d, h, m, c = ut.ProgressBar._secs_to_days_hrs_mins_secs(s)
        tot = ((d * 24 + h) * 60 + m) * 60 + c
        env.check(env.And(tot - s <= 0.5, s - tot <= 0.5), 'the rounded number of seconds')
        env.check(env.And(c >= 0, c < 60, m >= 0, m < 60, h >= 0, h < 24, d >= 0), 'ranges')
        env.obs('dhms', [d, h, m, c])
