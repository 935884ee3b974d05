"""Loads the repository's modules from /repo's current source, rewrites the few Python operations that cannot be
overloaded (membership, string %, container displays, subscripts, bare except) and runs them on symbolic values."""
import ast
import warnings
import os
import sys
import types
import importlib
from . import shims, stubs
from .core import Unsupported

REPO = os.environ.get('VT_REPO', '/repo')
_CODE = {}
_EVAL = {}

_CMP = {ast.Eq: 0, ast.NotEq: 1, ast.In: 2, ast.NotIn: 3, ast.Lt: 4, ast.LtE: 5, ast.Gt: 6, ast.GtE: 7, ast.Is: 8,
        ast.IsNot: 9}


def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def _lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


class Rewriter(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return _call('vt__mod', n.left, n.right)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.Assign(targets=[n.target],
                              value=_call('vt__mod', ast.Name(id=n.target.id, ctx=ast.Load()), n.value))
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        ops = [_CMP[type(o)] for o in n.ops]
        if len(ops) == 1:
            if ops[0] <= 3:
                return _call('vt__cmp', ast.Constant(ops[0]), n.left, n.comparators[0])
            return n
        if any(o <= 3 for o in ops) and not any(_has_walrus_or_yield(c) for c in n.comparators):
            args = [n.left]
            for o, c in zip(ops, n.comparators):
                args.append(ast.Tuple(elts=[ast.Constant(o), _lam(c)], ctx=ast.Load()))
            return _call('vt__chain', *args)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'type' and len(n.args) == 1 and not n.keywords:
            return _call('vt__type', n.args[0])
        if isinstance(n.func, ast.Attribute) and n.func.attr in METHS:
            return ast.Call(func=ast.Name(id='vt__meth', ctx=ast.Load()),
                            args=[n.func.value, ast.Constant(n.func.attr)] + n.args, keywords=n.keywords)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        el = []
        for k, v in zip(n.keys, n.values):
            k = ast.Name(id='vt__missing', ctx=ast.Load()) if k is None else k
            el.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return _call('vt__dict', ast.List(elts=el, ctx=ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return _call('vt__dict', ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()),
                                               generators=n.generators))

    def visit_Set(self, n):
        self.generic_visit(n)
        return _call('vt__set', ast.List(elts=n.elts, ctx=ast.Load()))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return _call('vt__set', ast.ListComp(elt=n.elt, generators=n.generators))

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        s = n.slice
        if isinstance(s, ast.Slice):
            none = lambda e: e if e is not None else ast.Constant(None)
            s = _call('slice', none(s.lower), none(s.upper), none(s.step))
        elif isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return n
        return _call('vt__get', n.value, s)

    def visit_Try(self, n):
        self.generic_visit(n)
        for h in n.handlers:
            if h.type is None or _names_base(h.type):
                n.handlers.insert(0, ast.ExceptHandler(type=ast.Name(id='vt__exc', ctx=ast.Load()), name=None,
                                                       body=[ast.Raise(exc=None, cause=None)]))
                break
        return n


METHS = {'zfill', 'ljust', 'rjust', 'center', 'isdigit', 'isnumeric', 'isdecimal', 'to_bytes'}


def _names_base(e):
    return any(isinstance(x, ast.Name) and x.id == 'BaseException' for x in ast.walk(e))


def _has_walrus_or_yield(e):
    return any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(e))


def rewrite(src, filename, mode='exec'):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t = ast.parse(src, filename, mode)
    t = Rewriter().visit(t)
    ast.fix_missing_locations(t)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return compile(t, filename, mode, dont_inherit=True)


def module_code(path):
    c = _CODE.get(path)
    if c is None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        c = _CODE[path] = rewrite(src, path)
    return c


def compile_eval(src):
    c = _EVAL.get(src)
    if c is None:
        c = _EVAL[src] = rewrite(src.strip(), '<eval>', 'eval')
    return c


def repo_modules():
    return sorted(f[:-3] for f in os.listdir(REPO) if f.endswith('.py'))


STDLIB = set(sys.stdlib_module_names)


class Loader(object):
    """one fresh instance of the repository's modules"""

    def __init__(self, extra=None, open_fn=None):
        self.mods = {}
        self.stubs = stubs.all_stubs(extra)
        self.builtins = shims.make_builtins(open_fn, self.imp)
        self.repo = set(repo_modules())
        self.saved = {}

    def imp(self, name, g=None, l=None, fromlist=(), level=0):
        if level:
            pkg = (g or {}).get('__package__') or ''
            if pkg:
                raise Unsupported('relative import')
        top = name.split('.')[0]
        if top in self.repo and name == top:
            return self.load(top)
        if os.path.isdir(os.path.join(REPO, top)) and top not in STDLIB and top not in self.stubs:
            m = self.load_pkg(name)
            return m if fromlist else self.mods[top]
        if top in self.stubs:
            m = self.stubs.get(name)
            if m is None:
                raise Unsupported('import of %s' % name)
            return m if fromlist else self.stubs[top]
        if top in STDLIB or top == 'vt':
            importlib.import_module(name)
            return sys.modules[name] if fromlist else sys.modules[top]
        if top in ('psutil', 'tqdm', 'pandas', 'matplotlib', 'gmpy2', 'sklearn'):
            raise Unsupported('import of %s' % name)
        raise ImportError('No module named %r' % name)

    def load_pkg(self, name):
        base = os.path.join(REPO, *name.split('.'))
        raise Unsupported('package %s in the repository' % base)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = os.path.join(REPO, name + '.py')
        code = module_code(path)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = ''
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        if name in sys.modules and name not in self.saved:
            self.saved[name] = sys.modules[name]
        sys.modules[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m

    def close(self):
        for n in self.mods:
            if n in self.saved:
                sys.modules[n] = self.saved[n]
            else:
                sys.modules.pop(n, None)
        self.mods = {}
