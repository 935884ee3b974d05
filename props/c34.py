"""C34: an interrupted save leaves the saved tables alone."""
import os
import shutil
from props.c24 import base
from props.c31 import World, rd, content, table
ID = 'C34'
ASSUMPTIONS = ['a stop is modelled as an exception at the start of the build, at opening, before, within or after each write and at closing the '
               'saved file, with whatever was written up to then on disk; the file system itself keeps what was written',
               'version numbers in file names are written without leading zeros']
BOUNDS = {'quick': 'directories with up to 3 versions of the table with arbitrary symbolic distinct version numbers, with or without an unversioned '
                   'file, every stop during a save of a generated or an expanded table (up to 4 writes), two interrupted saves in a row, a save '
                   'after an interrupted one; joining and repairing of saved tables stopped likewise',
          'thorough': 'as quick with up to 4 versions'}


class Stop(BaseException):
    pass


class Faulty(object):
    """a file being written whose k-th step stops the run"""
    def __init__(self, f, world):
        self.f, self.w = f, world

    def write(self, data):
        self.w.step()
        self.f.write(data[:len(data) // 2])
        self.f.flush()
        self.w.step()
        self.f.write(data[len(data) // 2:])
        self.f.flush()
        self.w.step()
        return len(data)

    def close(self):
        if not self.f.closed:
            self.f.close()
            self.w.step()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()
        if a[0] is None:
            self.w.step()

    def __getattr__(self, n):
        return getattr(self.f, n)


class Steps(object):
    def __init__(self, k):
        self.k, self.n, self.stopped, self.active = k, 0, False, True

    def step(self):
        if self.active and not self.stopped:
            self.n += 1
            if self.n > self.k:
                self.stopped = True
                raise Stop()

    def open(self, real):
        def f(name, mode='r', *a, **k):
            if not any(c in mode for c in 'wax+') or not self.active:
                return real(name, mode, *a, **k)
            self.step()
            h = real(name, mode, *a, **k)
            if 'b' not in mode:
                return h
            g = Faulty(h, self)
            try:
                self.step()
            except Stop:
                h.close()
                raise
            return g
        return f


def cases(tier):
    out = []
    for op in ('generate', 'expand'):
        for n in range(0 if op == 'generate' else 1, 5 if tier != 'quick' else 4):
            out.append(dict(op=op, n=n))
        out.append(dict(op=op, n=0, un=True))
        out.append(dict(op=op, n=2, un=True))
        out.append(dict(op=op, n=2, again=True))
        out.append(dict(op=op, n=1, then=True))
        out.append(dict(op=op, n=1, full=True))
    out += [dict(op='join', n=2), dict(op='repair', n=1)]
    return out


def run(env, op, n, un=False, again=False, then=False, full=False):
    env.scratch()
    w = World(env)
    real = w.main.__dict__.get('open', None) or opener(env)
    conf = base('.')
    conf.update(is_test='false', hashtable_file_operation='generate', gen_hashtable_only='true', const='pi', i='3', ab_polys_type='normal',
                lhs_type='ulcd')
    w.run(conf)
    data = rd('tab_v1.pkl')
    want = content(table(env, 'tab_v1.pkl'))
    os.rename('tab_v1.pkl', 'saved')
    vs = [env.int('v%d' % i, 0 if i else 1, 10 ** 6) for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(vs[i] != vs[j])
        if un:
            env.assume(vs[i] != 0)
    if op in ('join', 'repair'):
        return script(env, op, n, data, real)
    names = [env.text('tab_v%s.pkl', v) for v in vs] + (['tab.pkl'] if un else [])
    for f in names:
        shutil.copyfile('saved', f)
    os.remove('saved')
    conf.update(hashtable_file_operation=op, const='e', gen_hashtable_only='false' if full else 'true')
    for r in range(2 if again else 1):
        st = Steps(env.choice('step%d' % r, [0, 1, 2, 3, 4, 5, 99]))
        w.main.open = st.open(real)
        build = w.ep.MITM.build_hashtable

        def b(mitm, *a, **k):
            st.step()
            return build(mitm, *a, **k)
        w.ep.MITM.build_hashtable = b
        e = None
        try:
            if full:
                # (nothing of the search itself is stopped)
                fc = w.ep.MITM.find_clicks

                def find(mitm, *a, **k):
                    st.active = False
                    return fc(mitm, *a, **k)
                w.ep.MITM.find_clicks = find
            w.run(conf)
        except Stop as x:
            e = x
        w.ep.MITM.build_hashtable = build
        st.active = False
        env.check(st.k == 99 or e is not None or st.n > 0, 'the save is stopped')
        for f in names:
            env.check(os.path.isfile(f), 'every saved table is still there')
            env.check(rd(f) == data, 'every saved table is unchanged')
            env.check(content(table(env, f)) == want, 'every saved table can be loaded')
        if e is None:
            break
        if again and op == 'expand':
            # the incomplete newest table cannot be loaded: the next run has to fail or to leave everything alone, too
            pass
        env.obs('files', len(os.listdir('.')))
        if again:
            for f in os.listdir('.'):
                if f not in names and f.endswith('.pkl') and op == 'expand':
                    os.remove(f)
    if then:
        # a later save is complete, and is a new version
        w.main.open = real
        for f in os.listdir('.'):
            if f not in names and f.endswith('.pkl') and op == 'expand':
                os.remove(f)
        before = [f for f in os.listdir('.') if f.endswith('.pkl')]
        w.run(conf)
        new = [f for f in os.listdir('.') if f.endswith('.pkl') and f not in before]
        env.check(len(new) == 1, 'a new version is saved')
        got = content(table(env, new[0]))
        env.check(len(got) == (1 if op == 'generate' else len(want) + 1), 'the whole table is saved')
        for f in names:
            env.check(rd(f) == data, 'every saved table is unchanged in the end')


def script(env, op, n, data, real):
    m = env.mod('join_hashtables' if op == 'join' else 'fix_hashtable_filter_init_b_root')
    os.mkdir('tables')
    form = 't%s.pkl' if op == 'join' else env.choice('form', ['t%s.pkl', 't%s_fixed.pkl', 't%s_fixed_fixed.pkl', 't%s', 't_fixed_v%s.pkl'])
    names = [env.text('tables/' + form, env.int('v%d' % i, 0, 10 ** 6)) for i in range(n)]
    if n > 1:
        env.assume(names_differ(env, n))
    for f in names:
        shutil.copyfile('saved', f)
    if op == 'join':
        # the output may be a new file, or name an existing table (then nothing is written)
        os.mkdir('other')
        shutil.copyfile('saved', 'other/o.pkl')
        out = env.choice('out', [None, 'new.pkl', 'other/new.pkl', 'other/o.pkl', names[0]])
        names.append('other/o.pkl')
    st = Steps(env.choice('step', [0, 1, 2, 3, 4, 5, 99]))
    m.open = st.open(real)
    e = None
    try:
        if op == 'repair':
            m.main(names[0])
        elif out is None:
            m.main('tables')
        else:
            m.main('tables', out)
    except Stop as x:
        e = x
    st.active = False
    env.check(e is not None or st.k == 99 or st.n > 0 or (op == 'join' and out in names), 'the save is stopped')
    for f in names:
        env.check(os.path.isfile(f) and rd(f) == data, 'every saved table is unchanged')


def names_differ(env, n):
    return env.int('v0', 0, 10 ** 6) != env.int('v1', 0, 10 ** 6)


def opener(env):
    if env.symbolic:
        from vt.symenv import v_open
        return v_open
    import builtins
    return builtins.open
