"""C24: configuration files."""
import itertools
ID = 'C24'
ASSUMPTIONS = ['values contain no % (the standard interpolation character)']
BOUNDS = {'quick': 'every integer option with an arbitrary symbolic value (unbounded), coefficient ranges with symbolic bounds in interlaces of up '
                   'to 3, every option omitted or "none" on its own and in pairs, optional ones in all subsets, function lists of up to 2 of the '
                   '24 functions (a symbolic choice), unknown options with symbolic numbers, spacing, comments and letter case variants, '
                   'save and load of all of these',
          'thorough': 'as quick with function lists of 3'}
INTS = ['i', 'hashtable_num_of_iterations', 'hashtable_precision', 'first_filtering_num_of_iterations', 'first_filtering_precision',
        'second_filtering_max_num_of_iterations', 'second_filtering_precision', 'third_filtering_max_num_of_iterations',
        'third_filtering_precision']
BOOLS = ['print_surprising_nonexp_contfracs', 'validate_hashtable_extend_no_replication', 'is_test']
JSON = ['ab_polys_special_params', 'a_coeffs_range', 'b_coeffs_range', 'lhs_params']
OPTIONAL = {'i': 0, 'is_test': False, 'validate_hashtable_extend_no_replication': True}
NEEDED = ['hashtable_file', 'hashtable_file_operation', 'postproc_funcs_filter']
ALL = INTS + BOOLS + JSON + ['const', 'ab_polys_type', 'gen_hashtable_only', 'lhs_type'] + NEEDED


def cases(tier):
    th = tier != 'quick'
    out = [dict(kind='ints', k=k) for k in range(len(INTS))] + [dict(kind='allints')]
    out += [dict(kind='omit', k=k, none=none) for k in range(len(ALL) - 3) for none in (0, 1)]
    out += [dict(kind='omitpair', k=k) for k in range(len(ALL) - 3)]
    out += [dict(kind='optional')]
    out += [dict(kind='bools', k=k) for k in range(3)]
    out += [dict(kind='ranges', n=n) for n in (1, 2, 3)]
    out += [dict(kind='funcs', n=n) for n in (0, 1, 2) + ((3,) if th else ())]
    out += [dict(kind='badfunc'), dict(kind='types'), dict(kind='bad', k=0), dict(kind='bad', k=1), dict(kind='unknown'), dict(kind='gen'),
            dict(kind='op'), dict(kind='style'), dict(kind='sections'), dict(kind='missing'), dict(kind='set'), dict(kind='repo')]
    return out


FUNCS = ["lambda x: x", "safe_inverse", "lambda x: x**2", "lambda x: safe_inverse(x**2)", "lambda x: x**3", "lambda x: safe_inverse(x**3)",
         "lambda x: x**4", "lambda x: safe_inverse(x**4)", "lambda x: x**5", "lambda x: safe_inverse(x**5)", "safe_sqrt",
         "lambda x: safe_inverse(safe_sqrt(x))", "lambda x: dec_sin(x)", "lambda x: safe_inverse(dec_sin(x))", "lambda x: dec_cos(x)",
         "lambda x: safe_inverse(dec_cos(x))", "lambda x: dec_tan(x)", "lambda x: safe_inverse(dec_tan(x))", "lambda x: dec_cot(x)",
         "lambda x: safe_inverse(dec_cot(x))", "lambda x: dec_exp(x)", "lambda x: safe_inverse(dec_exp(x))", "lambda x: dec_ln(x)",
         "lambda x: safe_inverse(dec_ln(x))"]


def base(s):
    v = {k: str(10 + i) for i, k in enumerate(INTS)}
    v.update({'print_surprising_nonexp_contfracs': 'false', 'validate_hashtable_extend_no_replication': 'false', 'is_test': 'true',
              'ab_polys_special_params': '[1, 2]', 'a_coeffs_range': '[[[-4, 4], [-3, 5]]]', 'b_coeffs_range': '[[[1, 2]]]',
              'lhs_params': '[[1, 3], 4, [2, 9, 3], 4]', 'const': 'zeta', 'ab_polys_type': 'indexed', 'gen_hashtable_only': 'auto',
              'lhs_type': 'ulcd', 'hashtable_file': s + '/tab.pkl', 'hashtable_file_operation': 'use',
              'postproc_funcs_filter': '["safe_sqrt", "lambda x: x"]'})
    return v


def expect(env, s):
    ep, le = env.mod('enum_poly_params'), env.mod('lhs_evaluators')
    v = {k: 10 + i for i, k in enumerate(INTS)}
    v.update({'print_surprising_nonexp_contfracs': False, 'validate_hashtable_extend_no_replication': False, 'is_test': True,
              'ab_polys_special_params': [1, 2], 'a_coeffs_range': [[[-4, 4], [-3, 5]]], 'b_coeffs_range': [[[1, 2]]],
              'lhs_params': [[1, 3], 4, [2, 9, 3], 4], 'const': 'zeta', 'ab_polys_type': ep.AB_POLYS_TYPES['indexed'],
              'gen_hashtable_only': False, 'lhs_type': le.LHS_TYPES['ulcd'], 'hashtable_file': s + '/tab_v1.pkl',
              'hashtable_file_operation': 'use', 'postproc_funcs_filter': [10, 0],
              'postproc_funcs_filter_textual': ["safe_sqrt", "lambda x: x"]})
    return v


def write(name, v, head='[Setup]\n', sep='='):
    with open(name, 'w') as f:
        f.write(head + ''.join('%s%s%s\n' % (k, sep, x) for k, x in v.items()))


def compare(env, got, want, label):
    env.check_same(sorted(got), sorted(want), label + ': options')
    for k in sorted(want):
        env.check(type(got[k]) is type(want[k]) or env.is_num(want[k]) == env.is_num(got[k]) is True, label + ': type of ' + k)
        if isinstance(want[k], type) or isinstance(want[k], dict):
            env.check(got[k] == want[k] if isinstance(want[k], dict) else got[k] is want[k], label + ': ' + k)
        else:
            env.check_same(got[k], want[k], label + ': ' + k)


def save(env, cp, params, name):
    """as main does"""
    out = cp.ConfigParser()
    out.add_section('Setup')
    for k in cp.CONFIG_PARAMS_TYPES:
        out.set('Setup', k, cp.ConfigParser.param_to_str(k, params[k]))
    with open(name, 'w') as f:
        out.write(f)


def roundtrip(env, cp, got, s, want):
    save(env, cp, got, s + '/saved.ini')
    again = cp.ConfigParser(configfile=s + '/saved.ini').get_config()
    compare(env, again, want, 'saved and loaded')


def run(env, kind, k=0, n=0, none=0):
    cp = env.mod('configfile')
    s = env.scratch()
    name = s + '/conf.ini'
    v, w = base(s), expect(env, s)

    def load():
        return cp.ConfigParser(configfile=name).get_config()

    def both(extra=None, drop=()):
        write(name, v)
        got = load()
        compare(env, got, w, 'loaded')
        roundtrip(env, cp, got, s, {q: x for q, x in w.items() if q not in drop})
    if kind in ('ints', 'allints'):
        for i, key in enumerate(INTS):
            if kind == 'allints' or i == k:
                x = env.int(key, 0 if kind == 'allints' else None)
                v[key], w[key] = env.text('%s', x), x
        both()
    elif kind in ('omit', 'omitpair'):
        ks = [k] if kind == 'omit' else [k, env.conc(env.int('other', 0, len(ALL) - 4))]
        for i in ks:
            key = ALL[i]
            if none:
                v[key], w[key] = ('none', 'None', ' NONE ')[i % 3], None
            else:
                v.pop(key, None)
                w[key] = OPTIONAL.get(key)
                if key == 'gen_hashtable_only':
                    w[key] = None
        both()
    elif kind == 'optional':
        for key in sorted(OPTIONAL):
            if env.flag('no_' + key):
                v.pop(key)
                w[key] = OPTIONAL[key]
        both()
    elif kind == 'bools':
        key = BOOLS[k]
        for text, val in (('true', True), ('TRUE', True), ('True', True), ('false', False), ('False', False), ('FALSE', False)):
            v[key], w[key] = text, val
            both()
        for text in ('yes', '1', '0', 'tru', 'on'):
            v[key] = text
            write(name, v)
            env.check(isinstance(env.raises(load), ValueError), 'not a boolean')
    elif kind == 'ranges':
        def num(name, sign):
            return env.int(name, 0) if sign > 0 else -env.int(name, 1)
        ra = [[[num('a%d_%d' % (i, j), (-1) ** (i + j)), num('A%d_%d' % (i, j), (-1) ** (i + j + 1))] for j in range(2 - i % 2)]
              for i in range(n)]
        rb = [[[env.int('b') if i == 0 else num('b%d' % i, -1), 7]] for i in range(n)]
        lhs = [[num('u', -1), 5], env.int('l'), [[num('c', 1), 1], [2, 3]], True]
        v['a_coeffs_range'], w['a_coeffs_range'] = env.text('%s', ra), ra
        v['b_coeffs_range'], w['b_coeffs_range'] = env.text('%s', rb).replace(' ', ''), rb
        v['lhs_params'], w['lhs_params'] = env.text('%s', lhs).replace('True', 'true'), lhs
        both()
    elif kind == 'funcs':
        ix = [env.conc(env.int('f%d' % i, 0, 3 if i else 23)) for i in range(n)]
        ix = [(i + ix[0]) % 24 if j else i for j, i in enumerate(ix)]
        v['postproc_funcs_filter'] = '[%s]' % ', '.join('"%s"' % FUNCS[i] for i in ix)
        w['postproc_funcs_filter'], w['postproc_funcs_filter_textual'] = ix, [FUNCS[i] for i in ix]
        both()
    elif kind == 'badfunc':
        for f in ('"lambda y: y"', '"safe_sqr"', '"lambda x:x"', '"safe_sqrt", "nope"', '"lambda x: x "'):
            v['postproc_funcs_filter'] = '[%s]' % f
            write(name, v)
            env.check(env.raises(load) is not None, 'unknown function %s' % f)
    elif kind == 'types':
        ep, le = env.mod('enum_poly_params'), env.mod('lhs_evaluators')
        for t in ('normal', 'indexed', 'sparse', ' Sparse ', 'NORMAL'):
            for l in ('ulcd', 'rationalfunc', 'RationalFunc', 'ULCD '):
                v['ab_polys_type'], w['ab_polys_type'] = t, ep.AB_POLYS_TYPES[t.strip().lower()]
                v['lhs_type'], w['lhs_type'] = l, le.LHS_TYPES[l.strip().lower()]
                both()
        env.check(len({id(x) for x in ep.AB_POLYS_TYPES.values()}) == 3, 'three kinds of polynomials')
        for l, (e, g) in (('ulcd', ('ULCDEvaluator', 'ULCDEnumerator')), ('rationalfunc', ('RationalFuncEvaluator', 'RationalFuncEnumerator'))):
            env.check(le.LHS_TYPES[l]['eval'] is getattr(le, e) and le.LHS_TYPES[l]['enum'] is getattr(le, g), 'left-hand sides')
        for t, c in (('normal', 'BasicEnumPolyParams'), ('indexed', 'IndexedParameterEnumPolyParams'), ('sparse', 'SparseParameterEnumPolyParams')):
            env.check(ep.AB_POLYS_TYPES[t].__name__ == c, 'polynomials')
    elif kind == 'bad':
        for key, text in ((('ab_polys_type', 'dense'), ('lhs_type', 'rational'), ('hashtable_file_operation', 'delete'),
                           ('hashtable_file_operation', 'none'), ('hashtable_file_operation', 'true')),
                          (('i', '1.5'), ('hashtable_precision', 'many'), ('a_coeffs_range', '[[1, 2]'), ('lhs_params', 'x'),
                           ('third_filtering_precision', '[3]'), ('postproc_funcs_filter', 'safe_sqrt')))[k]:
            v = dict(base(s), **{key: text})
            write(name, v)
            env.check(isinstance(env.raises(load), ValueError), 'illegal value %s=%s' % (key, text))
    elif kind == 'unknown':
        x = env.int('x')
        y = env.int('y')
        for key, text, val in (('my_int', env.text('%s', x), x), ('my_float', '2.5', 2.5), ('my_exp', '1e3', 1000.0), ('my_neg', '-7', -7),
                               ('my_list', env.text('[1, %s, [2.5, "q"]]', y), [1, y, [2.5, 'q']]), ('my_text', 'Hello World', 'hello world'),
                               ('my_none', 'None', None), ('my_true', 'True', True), ('my_false', 'false', False),
                               ('my_json', '"quoted"', 'quoted'), ('my_broken', '[1, 2', '[1, 2')):
            v[key], w[key] = text, val
        write(name, v)
        got = load()
        compare(env, got, w, 'unknown options')
    elif kind == 'gen':
        for op in ('generate', 'use', 'expand'):
            for text, val in (('auto', op != 'use'), ('Auto', op != 'use'), ('true', True), ('false', False), ('none', None)):
                v['gen_hashtable_only'], v['hashtable_file_operation'] = text, op
                w['gen_hashtable_only'], w['hashtable_file_operation'] = val, op
                both()
    elif kind == 'op':
        for text in ('generate', 'Use', ' expand ', 'USE'):
            v['hashtable_file_operation'], w['hashtable_file_operation'] = text, text.strip().lower()
            w['gen_hashtable_only'] = text.strip().lower() != 'use'
            both()
    elif kind == 'style':
        x = env.int('x')
        v['i'], w['i'] = env.text('%s', x), x
        for head, sep in (('; comment\n[Setup]\n; more = 3\n', ' = '), ('[setup]\n', ':'), ('\n\n[My Section]\n# i=4\n', '  =  ')):
            write(name, v, head, sep)
            compare(env, load(), w, 'style')
        v = {q.upper(): t for q, t in v.items()}
        write(name, v)
        compare(env, load(), w, 'letter case')
    elif kind == 'sections':
        x = env.int('x')
        v['i'], w['i'] = env.text('%s', x), x
        keys = sorted(v)
        with open(name, 'w') as f:
            for i, key in enumerate(keys):
                f.write('%s%s = %s\n' % ('[S%d]\n' % i if i % 4 == 0 else '', key, v[key]))
        compare(env, load(), w, 'sections')
    elif kind == 'missing':
        p = cp.ConfigParser(configfile=s + '/missing.ini')
        env.check_same(sorted(p.get_config().items()), sorted(OPTIONAL.items()), 'no file: defaults only')
        p = cp.ConfigParser()
        env.check_same(sorted(p.get_config().items()), sorted(OPTIONAL.items()), 'no name: defaults only')
        a, b = cp.ConfigParser(), cp.ConfigParser()
        a.get_config()['i'] = 3
        env.check_same(b.get_config()['i'], 0, 'parsers are independent')
    elif kind == 'set':
        p = cp.ConfigParser()
        p.add_section('Setup')
        i = env.conc(env.int('f', 0, 23))
        p.set('Setup', 'postproc_funcs_filter', str([i, 0]))
        env.check_same(p.get('Setup', 'postproc_funcs_filter'), '["%s", "%s"]' % (FUNCS[i], FUNCS[0]), 'names are written')
        x = env.int('x')
        p.set('Setup', 'i', env.text('%s', x))
        env.check_same(p.get('Setup', 'i'), env.text('%s', x), 'others as they are')
    else:
        # the configurations of the repository are readable and survive saving
        import os
        d = env.repo
        for f in sorted(os.listdir(d)):
            if f.startswith('config') and f.endswith('.ini'):
                e = env.raises(lambda: cp.ConfigParser(configfile=d + '/' + f).get_config())
                if e is not None:
                    continue
                got = env.result
                save(env, cp, got, s + '/saved.ini')
                again = cp.ConfigParser(configfile=s + '/saved.ini').get_config()
                for key in cp.CONFIG_PARAMS_TYPES:
                    env.check_same(again[key], got[key], f + ': ' + key)
