"""C16: hash-table lookup by digits."""
ID = 'C16'
ASSUMPTIONS = ['keys are non-negative and finite; decimal strings carry at least the digits of the table accuracy']
BOUNDS = {'quick': 'accuracies 1, 2, 3, 5, 15; up to 3 symbolic real keys in [0,1) (also in [0,100)); every history of 3 operations out of '
                   'store, look up, test, delete, get, get with default, setdefault, each on one of two symbolic keys, after one store',
          'thorough': 'as quick with histories of 4 operations on 3 keys'}
OPS = ('set', 'getitem', 'in', 'del', 'get', 'setdefault')


def cases(tier):
    th = tier != 'quick'
    out = []
    for n in (1, 2, 3, 5, 15):
        out.append(dict(kind='pair', n=n, hi=1))
        out.append(dict(kind='pair', n=n, hi=100))
        out.append(dict(kind='string', n=n))
        out.append(dict(kind='near', n=n))
    for n in (1, 3):
        for o1 in OPS:
            for o2 in OPS:
                out.append(dict(kind='hist', n=n, first=[o1, o2], L=4 if th else 3, keys=3 if th else 2))
    out += [dict(kind='types', n=2), dict(kind='text', n=2), dict(kind='values', n=4), dict(kind='iter', n=3)]
    return out


def digits_same(env, x, y, n, hi):
    """x and y show the same n+1 leading digits (n decimals below 10)"""
    if hi > 1:
        bx, by = bool(x >= 10), bool(y >= 10)
        if bx != by:
            return False
        if bx:
            n -= 1
    k = 10 ** n
    return env.same(env.floor(x * k), env.floor(y * k))


def run(env, kind, n=0, hi=1, first=(), L=0, keys=2):
    env.lib('mpmath').mp.dps = 60           # the working precision exceeds the table accuracy
    dh = env.mod('decimal_hashtable')
    T = dh.DecimalHashTable
    t = T(n)

    def real(name, hi=1):
        v = env.real(name, 0, hi)
        env.assume(v < hi)
        return v
    if kind == 'pair':
        x, y = real('x', hi), real('y', hi)
        t[x] = ['v']
        s = bool(digits_same(env, x, y, n, hi))
        env.check_same(bool(y in t), s, 'found exactly when the digits agree')
        env.check_same(t.get(y, 'd'), ['v'] if s else 'd', 'get')
        env.check_same(t.get(y), ['v'] if s else None, 'get without default')
        e = env.raises(t.__getitem__, y)
        env.check(e is None if s else isinstance(e, KeyError), 'look-up')
        env.check_same(bool(x in t), True, 'found through its own key')
        t[y] = ['w']
        env.check_same(len(t), 1 if s else 2, 'overwritten exactly when the digits agree')
        env.check_same(t[x], ['w'] if s else ['v'], 'own value')
        env.check_same(t[y], ['w'], 'new value')
        del t[y]
        env.check_same(len(t), 0 if s else 1, 'one entry deleted')
        env.check_same(bool(x in t), not s, 'exactly that entry deleted')
        e = env.raises(t.__delitem__, y)
        env.check(isinstance(e, KeyError), 'deleting a missing entry')
        env.check_same(len(t), 0 if s else 1, 'nothing else deleted')
    elif kind == 'near':
        # neighbours at the last digit
        m = env.int('m', 0, 10 ** n - 2)
        x = (env.mpf(0) + m) / 10 ** n
        d = real('d')
        env.assume(d < 1)
        y = x + d * (env.mpf(1) / 10 ** n)
        z = x + (1 + d) * (env.mpf(1) / 10 ** n)
        t[y] = 1
        if env.flag('exact'):
            env.check_same(bool((x + d / (env.mpf(2) * 10 ** n)) in t), True, 'the same digits are found')
        env.check_same(bool(z in t), False, 'the next digit is not')
        t[z] = 2
        env.check_same([t[y], t[z], len(t)], [1, 2, 2], 'both stored')
    elif kind == 'string':
        x = real('x')
        m = env.conc(env.int('m', 0, 3))
        s = '0.' + str(m * 3) * n
        want = env.same(env.floor(x * 10 ** n), int(s[2:]))
        t[s] = 'v'
        f = bool(want)
        env.check_same(bool(x in t), f, 'a number finds the entry of a string with its digits')
        env.check_same(bool(s + '123' in t), True, 'further digits of a string do not matter')
        env.check_same(bool('1' + s[1:] in t), False, 'other digits')
        t[x] = 'w'
        env.check_same(t[s], 'w' if f else 'v', 'a number overwrites the entry of a string with its digits')
        env.check_same(len(t), 1 if f else 2, 'number of entries')
        del t[s + '9']
        env.check_same(bool(x in t), not f, 'deleted through a string')
    elif kind == 'hist':
        ks = [real('k%d' % i) for i in range(keys)]
        model = []                      # [key, value]

        def find(k):
            for i, (q, v) in enumerate(model):
                if bool(digits_same(env, k, q, n, 1)):
                    return i
            return None
        t[ks[0]] = 'first'
        model.append([ks[0], 'first'])
        for step in range(L):
            op = first[step] if step < len(first) else env.choice('op%d' % step, OPS)
            k = ks[env.conc(env.int('w%d' % step, 0, keys - 1))]
            i = find(k)
            val = 'v%d' % step
            if op == 'set':
                t[k] = val
                if i is None:
                    model.append([k, val])
                else:
                    model[i][1] = val
            elif op == 'getitem':
                e = env.raises(t.__getitem__, k)
                if i is None:
                    env.check(isinstance(e, KeyError), 'looking up a missing key')
                else:
                    env.check(e is None, 'looking up a key')
                    env.check_same(t[k], model[i][1], 'value found')
            elif op == 'in':
                env.check_same(bool(k in t), i is not None, 'membership')
            elif op == 'del':
                e = env.raises(t.__delitem__, k)
                if i is None:
                    env.check(isinstance(e, KeyError), 'deleting a missing key')
                else:
                    env.check(e is None, 'deleting a key')
                    del model[i]
            elif op == 'get':
                env.check_same(t.get(k), None if i is None else model[i][1], 'get')
                env.check_same(t.get(k, 7), 7 if i is None else model[i][1], 'get with a default')
            else:
                r = t.setdefault(k, val)
                if i is None:
                    model.append([k, val])
                env.check_same(r, val if i is None else model[i][1], 'setdefault')
            env.check_same(len(t), len(model), 'number of entries')
        for k in ks:
            i = find(k)
            env.check_same(t.get(k, 'none'), 'none' if i is None else model[i][1], 'final content')
    elif kind == 'types':
        x = real('x')
        t[x] = 1
        for bad in (1, 0, None, (x,), 0.5, True, b'0.1'):
            for f in ('__getitem__', '__contains__', '__delitem__', 'get', 'setdefault'):
                e = env.raises(getattr(t, f), bad)
                env.check(isinstance(e, TypeError), 'keys of other types are rejected (%s)' % f)
            env.check(isinstance(env.raises(t.__setitem__, bad, 1), TypeError), 'keys of other types are rejected (store)')
        env.check_same([len(t), t[x]], [1, 1], 'nothing changed')
    elif kind == 'text':
        x = real('x')
        t['parameters'] = {'a': 1}
        t['parameterless'] = 2
        t[x] = 3
        env.check_same([t['parameters'], t['parameterless'], t[x], len(t)], [{'a': 1}, 2, 3, 3], 'textual keys are kept whole')
        env.check_same('para' in t, False, 'a prefix of a textual key')
        del t['parameters']
        env.check_same([sorted(str(k) == 'parameterless' for k in t), t[x]], [[False, True], 3], 'textual key deleted')
    elif kind == 'values':
        # falsy values and independent tables
        x, y = real('x'), real('y')
        env.assume(env.Not(digits_same(env, x, y, n, 1)))
        u = T(n)
        t[x], t[y] = [], 0
        env.check_same([t.get(x, 5), t.get(y, 5), t.setdefault(x, 6), t.setdefault(y, 6)], [[], 0, [], 0], 'falsy values are values')
        env.check_same([len(u), bool(x in u)], [0, False], 'tables are independent')
        t.setdefault(x, []).append(4)
        env.check_same(t[x], [4], 'setdefault returns the stored object')
    else:
        x, y, z = real('x'), real('y'), real('z')
        for i, k in enumerate((x, y, z)):
            t.setdefault(k, []).append(i)
        tot = sorted(i for v in t.values() for i in v)
        env.check_same(tot, [0, 1, 2], 'every value kept once')
        for k, v in list(t.items()):
            env.check_same(t[k], v, 'found through the stored key')
