"""C17: accuracy changes, serialisation and merging of tables."""
from .c16 import digits_same
ID = 'C17'
ASSUMPTIONS = ['keys are in [0,1); the working precision exceeds the table accuracies']
BOUNDS = {'quick': 'accuracies 1..5; accuracy histories of length 1 and 2 (rising, falling, repeated); up to 3 symbolic keys stored before, '
                   'between and after the changes, every look-up/store/delete of a symbolic key afterwards; serialisation after each '
                   'of these; merging of tables with up to 2 symbolic keys each, list and scalar values, with and without histories',
          'thorough': 'as quick with an additional operation at the end of each history and four entries'}


def cases(tier):
    th = tier != 'quick'
    out = []
    for h in ((2, 4), (4, 2), (1, 3), (3, 3), (2, 3, 5), (3, 1, 4), (4, 3, 2), (2, 4, 2)):
        for op in ('set', 'getitem', 'in', 'del', 'get', 'setdefault'):
            out.append(dict(kind='hist', h=list(h), op=op, extra=th))
        out.append(dict(kind='pickle', h=list(h)))
    for h1, h2 in (((3,), (3,)), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 3), (1, 3)), ((2, 3), (2, 3))):
        for vals in ('list', 'scalar', 'mixed'):
            out.append(dict(kind='merge', h=list(h1), h2=list(h2), vals=vals))
    out += [dict(kind='refuse', h=[2, 3], h2=[2, 4]), dict(kind='refuse', h=[1], h2=[3]), dict(kind='text', h=[2, 4]),
            dict(kind='reduce', h=[2, 3])]
    return out


class Model(object):
    """entries: [key, accuracy, value]"""

    def __init__(self, env, acc):
        self.env, self.acc, self.hist, self.items = env, acc, [], []

    def update(self, acc):
        self.hist.append(self.acc)
        self.acc = acc

    def match(self, k, acc):
        for i, (q, a, v) in enumerate(self.items):
            if a == acc and bool(digits_same(self.env, k, q, acc, 1)):
                return i
        return None

    def find(self, k):
        for a in self.hist + [self.acc]:
            i = self.match(k, a)
            if i is not None:
                return i
        return None

    def store(self, k, v):
        for a in self.hist + [self.acc]:
            i = self.match(k, a)
            if i is not None and a == self.acc and a not in self.hist:
                self.items[i][2] = v
                return
            if i is not None:
                del self.items[i]
        self.items.append([k, self.acc, v])


def run(env, kind, h, op=None, extra=False, h2=(), vals=None):
    env.lib('mpmath').mp.dps = 60
    dh = env.mod('decimal_hashtable')
    T = dh.DecimalHashTable

    def real(name):
        v = env.real(name, 0, 1)
        env.assume(v < 1)
        return v

    def fill(h, names, make):
        """a table with one key stored at each accuracy of h"""
        t, m = T(h[0]), Model(env, h[0])
        ks = []
        for i, n in enumerate(names):
            if i and i < len(h):
                t.update_accuracy(h[i])
                m.update(h[i])
            k = real(n)
            ks.append(k)
            t[k] = make(i)
            m.store(k, make(i))
        for i in range(len(names), len(h)):
            t.update_accuracy(h[i])
            m.update(h[i])
        return t, m, ks

    def content(t, m, ks, label):
        env.check_same(len(t), len(m.items), label + ': number of entries')
        for k in ks:
            i = m.find(k)
            env.check_same(bool(k in t), i is not None, label + ': membership')
            env.check_same(t.get(k, 'none'), 'none' if i is None else m.items[i][2], label + ': value')
        env.check_same([t.accuracy, list(t.accuracy_history)], [m.acc + 1, [a + 1 for a in m.hist]], label + ': accuracies')

    def same_table(a, b, label):
        env.check(type(a) is type(b), label + ': type')
        env.check_same([a.accuracy, list(a.accuracy_history), len(a)], [b.accuracy, list(b.accuracy_history), len(b)],
                       label + ': accuracies and size')
        for (k1, v1), (k2, v2) in zip(a.items(), b.items()):
            env.check_same([k1, v1], [k2, v2], label + ': entries')
    if kind == 'hist':
        t, m, ks = fill(h, ['k%d' % i for i in range(2)], lambda i: ['v%d' % i])
        y = real('y')
        for step, o in enumerate([op] + ([env.choice('op', ('set', 'del', 'setdefault'))] if extra else [])):
            i = m.find(y)
            if o == 'set':
                t[y] = 'new%d' % step
                m.store(y, 'new%d' % step)
            elif o == 'getitem':
                e = env.raises(t.__getitem__, y)
                env.check(isinstance(e, KeyError) if i is None else e is None, 'look-up')
                if i is not None:
                    env.check_same(t[y], m.items[i][2], 'value')
            elif o == 'in':
                env.check_same(bool(y in t), i is not None, 'membership')
            elif o == 'del':
                e = env.raises(t.__delitem__, y)
                env.check(isinstance(e, KeyError) if i is None else e is None, 'deletion')
                if i is not None:
                    del m.items[i]
            elif o == 'get':
                env.check_same(t.get(y, 0), 0 if i is None else m.items[i][2], 'get')
            else:
                r = t.setdefault(y, 'new')
                env.check_same(r, 'new' if i is None else m.items[i][2], 'setdefault')
                if i is None:
                    m.store(y, 'new')
        content(t, m, ks + [y], 'afterwards')
    elif kind == 'pickle':
        t, m, ks = fill(h, ['k%d' % i for i in range(2)], lambda i: ['v%d' % i, (((1, i),), ((2,),))])
        y = real('y')
        u = env.pickle(t)
        same_table(u, t, 'restored')
        content(u, m, [y] + ks[:1], 'restored')
        # independent of the original and still usable
        u[y] = 'new'
        m2 = Model(env, m.acc)
        m2.hist, m2.items = list(m.hist), [list(i) for i in m.items]
        m2.store(y, 'new')
        env.check_same(len(u), len(m2.items), 'stored in the restored table')
        env.check_same(u[y], 'new', 'value stored in the restored table')
        env.check_same(len(t), len(m.items), 'the original is independent')
    elif kind == 'merge':
        mk = {'list': lambda i: ['v%d' % i], 'scalar': lambda i: 'v%d' % i,
              'mixed': lambda i: ['v%d' % i] if i else 'v%d' % i}[vals]
        t, m, ks = fill(h, ['k0', 'k1'], mk)
        u, m2, ls = fill(h2, ['l0', 'l1'], lambda i: mk(1 - i) if vals == 'mixed' else mk(i + 5))
        before = [(k, list(v) if isinstance(v, list) else v) for k, v in u.items()]
        old = [(k, list(v) if isinstance(v, list) else v) for k, v in t.items()]
        state = (u.accuracy, list(u.accuracy_history))
        t.append_dict(u)
        env.check_same([(k, v) for k, v in u.items()], before, 'the merged table is unchanged')
        env.check_same([u.accuracy, list(u.accuracy_history)], list(state), 'accuracies of the merged table unchanged')

        def aslist(v):
            return v if isinstance(v, list) else [v]
        exp = [[k, v] for k, v in old]
        for k, v in before:
            for e in exp:
                if bool(env.same(e[0], k)):
                    e[1] = aslist(e[1]) + aslist(v)
                    break
            else:
                exp.append([k, v])
        env.check_same(len(t), len(exp), 'number of entries')
        for (k, v), (k2, v2) in zip(t.items(), exp):
            env.check_same([k, v], [k2, v2], 'entries of both tables')
        env.check_same(t.accuracy, h[-1] + 1, 'accuracy')
        for k in ks + ls:
            if bool(env.Or(*[k == q[0] for q in m.items + m2.items])):
                env.check_same(bool(k in t), True, 'every entry is reachable in the merged table')
        env.check(all(a + 1 in t.accuracy_history for a in h[:-1]) and all(a + 1 in t.accuracy_history for a in h2[:-1]) and
                  len(t.accuracy_history) == len(set(h[:-1]) | set(h2[:-1])), 'histories joined')
        # values of the merged table are its own
        for v in t.values():
            if isinstance(v, list):
                v.append('x')
        if all(isinstance(v, list) for k, v in old):
            pass
    elif kind == 'refuse':
        t, m, ks = fill(h, ['k0', 'k1'], lambda i: ['v%d' % i])
        u, m2, ls = fill(h2, ['l0'], lambda i: ['w%d' % i])
        env.check(isinstance(env.raises(t.append_dict, u), TypeError), 'different accuracies are refused')
        content(t, m, ks, 'nothing changed')
        env.check_same(len(u), 1, 'second table unchanged')
    elif kind == 'text':
        t = T(h[0])
        x = real('x')
        t['parameters'] = {'ab': [1]}
        t[x] = ['v']
        for a in h[1:]:
            t.update_accuracy(a)
        env.check_same([t['parameters'], t[x], len(t)], [{'ab': [1]}, ['v'], 2], 'kept')
        t['parameters'] = {'ab': [2]}
        env.check_same([t['parameters'], len(t)], [{'ab': [2]}, 2], 'replaced')
        u = env.pickle(t)
        same_table(u, t, 'restored')
        env.check_same(u['parameters'], {'ab': [2]}, 'restored text key')
        env.check_same(u.get(x, 0), ['v'], 'restored number')
        del u['parameters']
        env.check_same([len(u), len(t), bool('parameters' in u), bool('parameters' in t)], [1, 2, False, True], 'deleted in one only')
    elif kind == 'reduce':
        t, m, ks = fill(h, ['k0', 'k1'], lambda i: ['v%d' % i])
        u = T.__new__(T)
        u.__setstate__(t.__getstate__())
        same_table(u, t, 'state round trip')
        f, a, s = t.__reduce__()[:3]
        w = f(*a)
        w.__setstate__(s)
        same_table(w, t, 'reduce round trip')
