"""C23: versions of table files."""
import os
ID = 'C23'
ASSUMPTIONS = ['version numbers in file names are written without leading zeros, except in the concrete cases']
BOUNDS = {'quick': 'directories with up to 3 versions of the base with arbitrary symbolic distinct version numbers up to 10^6, with or without '
                   'an unversioned file (listed first or last), files of 10 other bases with symbolic version numbers, 5 ways of writing the file name, 6 base '
                   'names, all three operations, with and without a directory part',
          'thorough': 'as quick with up to 4 versions'}

BASES = ['tab', 'ta+b(1)', 'a.b', 'tab_v', 'x_v3_y', 't']


def cases(tier):
    th = tier != 'quick'
    out = []
    for op in ('generate', 'use', 'expand'):
        for n in range(0, 5 if th else 4):
            out.append(dict(op=op, n=n, base=0, form='plain', un=True, others=n < 3))
        out.append(dict(op=op, n=1, base=0, form='plain', un=True, others=False))
        for form in ('noext', 'version', 'bigversion', 'noext_version'):
            out.append(dict(op=op, n=2, base=0, form=form, un=True, others=False))
        for b in range(1, len(BASES)):
            out.append(dict(op=op, n=2, base=b, form='plain', un=False, others=True))
        out.append(dict(op=op, n=1, base=0, form='plain', un=True, others=True, nodir=True))
        out.append(dict(op=op, n=0, base=0, form='version', un=False, others=True))
        out.append(dict(op=op, n=0, base=0, form='version', un=False, others=True, nodir=True))
    out.append(dict(op='generate', n=1, base=0, form='empty', un=True, others=False))
    out.append(dict(op='chain', n=2, base=0, form='plain', un=True, others=True))
    return out


def touch(name):
    with open(name, 'w') as f:
        f.write('x')


def run(env, op, n, base, form, un, others, nodir=False):
    cp = env.mod('configfile')
    s = env.scratch()
    b = BASES[base]
    vs = [env.int('v%d' % i, 0 if i else 1, 10 ** 6) for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(vs[i] != vs[j])
    names = {}
    d = s if nodir else s + '/tables.dir'
    if not nodir:
        os.mkdir(d)
    have = []
    for v in vs:
        have.append((v, env.text('%s_v%s.pkl', b, v)))
    if un and env.flag('unversioned'):
        # counts as version 0
        for v in vs:
            env.assume(v != 0)
        have.append((0, b + '.pkl'))
    if others:
        w = env.int('w', 0, 10 ** 7)
        for fmt in ('%sx_v%s.pkl', 'x%s_v%s.pkl', '%s_v%s.pkl.bak', '%s_v%s', '%s_v%s_part.pkl', '%s_v5_v%s.pkl', '%sv%s.pkl', '%s_%s.pkl',
                    '%s_vx%s.pkl', '%s.pkl_v%s.pkl'):
            touch(env.path(d, env.text(fmt, b, w)))
        touch(d + '/' + b + '_v.pkl')
        if b[0] != 't' or b == 'tab':
            touch(d + '/' + b.upper() + '_v999.pkl')
    for v, f in have:
        touch(env.path(d, f))
    conf = {'plain': b + '.pkl', 'noext': b, 'version': b + '_v2.pkl', 'bigversion': b + '_v20000000.pkl', 'noext_version': b + '_v3',
            'empty': ''}[form]
    first = {'version': '2', 'bigversion': '20000000', 'noext_version': '3'}.get(form, '1')
    before = sorted(os.listdir(d))

    if n == 1 and not others and op in ('use', 'expand') and hasattr(cp, 'os'):
        # directory listings come in any order
        real, last = cp.os, env.flag('last')
        plain = b + '.pkl'

        class System:
            def __getattr__(self, name):
                return getattr(real, name)

            def listdir(self, *args):
                names = real.listdir(*args)
                mine = [f for f in names if type(f) is str and f == plain]
                rest = [f for f in names if not (type(f) is str and f == plain)]
                return rest + mine if last else mine + rest
        cp.os = System()

    def configure(op):
        text = '[Setup]\npostproc_funcs_filter=["lambda x: x"]\nhashtable_file_operation=%s\nhashtable_file=%s\n' % (
            op, conf if nodir else d + '/' + conf)
        with open(s + '/conf.ini', 'w') as f:
            f.write(text)
        got = cp.ConfigParser(configfile=s + '/conf.ini').get_config()['hashtable_file']
        return got

    def check(op, got, have):
        gd, gf = os.path.split(got)
        env.check(os.path.realpath(gd or '.') == os.path.realpath(d), 'in the directory of the configuration')
        best = None
        for v, f in have:
            if best is None or bool(v > best[0]):
                best = (v, f)
        if best is None:
            env.check_same(gf, b + '_v' + first + '.pkl', 'first version')
            return None
        if op == 'generate':
            head = b + '_v'
            env.check(gf[:len(head)] == head and gf[-4:] == '.pkl', 'a name of that base')
            if not (gf[:len(head)] == head):
                return None
            v = env.number(gf[len(head):-4])
            env.check(v is not None, 'a numbered version')
            if v is None:
                return None
            env.check(env.And(*[v > w for w, _ in have]), 'newer than every version, overwrites nothing')
            return v
        env.check_same(gf, best[1], 'the newest version')
        return None
    if form == 'empty':
        got = configure(op)
        env.check(os.path.realpath(got) == os.path.realpath(d), 'no file name: unchanged')
    elif op == 'chain':
        # generate, save, generate, save, use
        for i in range(2):
            got = configure('generate')
            v = check('generate', got, have)
            if v is None:
                v = env.number(first)
            have.append((v, os.path.basename(got)))
            touch(env.path(d, os.path.basename(got)))
        check('use', configure('use'), have)
        return
    else:
        check(op, configure(op), have)
    env.check(sorted(os.listdir(d)) == before or nodir, 'no file is touched')
