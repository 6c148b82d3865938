"""Loads the real source of a package through an AST rewriting that routes
calls, subscripts, comparisons and displays through symx.runtime."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import types
from . import runtime, sre

LEAVE_CALLS = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', 'isinstance',
               'getattr', 'hasattr', 'setattr', 'issubclass', 'iter', 'next', 'zip',
               'enumerate', 'id', 'callable', 'property', 'staticmethod', 'classmethod',
               'slice', 'reversed', 'object', 'delattr'}
PURE_CALLS = {'len', 'ord', 'isinstance', 'hasattr', 'BYTES_ORD', 'int', 'bool', 'callable'}


def pure(n):
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.Attribute):
        return pure(n.value)
    if isinstance(n, ast.Compare):
        return pure(n.left) and all(pure(c) for c in n.comparators)
    if isinstance(n, ast.BinOp):
        return pure(n.left) and pure(n.right)
    if isinstance(n, ast.UnaryOp):
        return pure(n.operand)
    if isinstance(n, ast.BoolOp):
        return all(pure(v) for v in n.values)
    if isinstance(n, ast.Subscript):
        return pure(n.value) and pure(n.slice)
    if isinstance(n, ast.Slice):
        return all(x is None or pure(x) for x in (n.lower, n.upper, n.step))
    if isinstance(n, (ast.Tuple, ast.List)):
        return all(pure(x) for x in n.elts)
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS and not n.keywords \
            and all(pure(a) for a in n.args)
    return False


def name(i):
    return ast.Name(id=i, ctx=ast.Load())


def call(f, *args):
    return ast.Call(func=name(f), args=list(args), keywords=[])


def thunk(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                         defaults=[]), body=body)


_AUG = {ast.Add: 'iadd', ast.Sub: 'isub', ast.Mult: 'imul', ast.Div: 'itruediv',
        ast.FloorDiv: 'ifloordiv', ast.Mod: 'imod', ast.Pow: 'ipow', ast.LShift: 'ilshift',
        ast.RShift: 'irshift', ast.BitOr: 'ior', ast.BitXor: 'ixor', ast.BitAnd: 'iand',
        ast.MatMult: 'imatmul'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.scope = []          # 'c' class, 'f' function
        self.qual = [modname]

    # scopes
    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        n.keywords = [self.visit(k) for k in n.keywords]
        self.scope.append('c')
        self.qual.append(n.name)
        n.body = self.block(n.body)
        self.qual.pop()
        self.scope.pop()
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.scope.append('f')
        self.qual.append(n.name)
        body = n.body
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            doc, body = [body[0]], body[1:]
        ent = ast.Expr(call('__sx_enter__', ast.Constant('.'.join(self.qual))))
        n.body = doc + [ent] + self.block(body)
        self.qual.pop()
        self.scope.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        n.args = self.visit(n.args)
        self.scope.append('f')
        n.body = self.visit(n.body)
        self.scope.pop()
        return n

    def in_class(self):
        return bool(self.scope) and self.scope[-1] == 'c'

    # expressions
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in LEAVE_CALLS:
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        return ast.Call(func=name('__sx_call__'), args=[n.func] + n.args, keywords=n.keywords)

    def visit_Compare(self, n):
        allpure = pure(n)
        self.generic_visit(n)
        if len(n.ops) == 1:
            return self.cmp1(n.left, n.ops[0], n.comparators[0])
        items = [n.left] + n.comparators
        mids = items[1:-1]
        if all(isinstance(m, (ast.Name, ast.Constant)) for m in mids) and not self.in_class() \
                and allpure:
            parts = [self.cmp1(items[i], n.ops[i], items[i + 1]) for i in range(len(n.ops))]
            return ast.Call(func=name('__sx_and__'), args=[parts[0]] + [thunk(p) for p in parts[1:]],
                            keywords=[])
        if allpure and len(mids) == 1 and not self.in_class():
            t = name('__sx_t__')
            body = ast.Call(func=name('__sx_and__'),
                            args=[self.cmp1(items[0], n.ops[0], t),
                                  thunk(self.cmp1(t, n.ops[1], items[2]))], keywords=[])
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__sx_t__')],
                                                kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=body)
            return ast.Call(func=lam, args=[mids[0]], keywords=[])
        return n

    def cmp1(self, a, op, b):
        if isinstance(op, ast.In):
            return call('__sx_in__', a, b)
        if isinstance(op, ast.NotIn):
            return call('__sx_notin__', a, b)
        return ast.Compare(left=a, ops=[op], comparators=[b])

    def visit_BoolOp(self, n):
        ok = all(pure(v) for v in n.values) and not self.in_class()
        self.generic_visit(n)
        if not ok:
            return n
        f = '__sx_and__' if isinstance(n.op, ast.And) else '__sx_or__'
        return ast.Call(func=name(f), args=[n.values[0]] + [thunk(v) for v in n.values[1:]],
                        keywords=[])

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return call('__sx_not__', n.operand)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return call('__sx_mod__', n.left, n.right)
        return n

    def index(self, s):
        if isinstance(s, ast.Slice):
            c = [x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)]
            return call('__sx_slice__', *c)
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple(elts=[self.index(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return call('__sx_getitem__', n.value, self.index(n.slice))
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        pairs = []
        for k, v in zip(n.keys, n.values):
            pairs.append(ast.Tuple(elts=[k if k is not None else name('__sx_spread__'), v],
                                   ctx=ast.Load()))
        return call('__sx_mkdict__', ast.List(elts=pairs, ctx=ast.Load()))

    def visit_Set(self, n):
        self.generic_visit(n)
        return call('__sx_mkset__', *n.elts)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return call('__sx_mkdict__', ast.ListComp(
            elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return call('__sx_mkset__', ast.Starred(value=ast.ListComp(elt=n.elt, generators=n.generators),
                                              ctx=ast.Load()))

    def visit_JoinedStr(self, n):
        pieces = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                pieces.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                pieces.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                                        ctx=ast.Load()))
        return call('__sx_fstr__', *pieces)

    # statements
    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.Expr(call('__sx_setitem__', n.value, t.value, self.index(t.slice)))
        return n

    def visit_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Subscript):
            self.generic_visit(n)
            return ast.Expr(call('__sx_aug__', ast.Constant(_AUG[type(n.op)]), t.value,
                                 self.index(t.slice), n.value))
        if isinstance(n.op, ast.Mod):
            if isinstance(t, ast.Name) or (isinstance(t, ast.Attribute) and pure(t.value)):
                import copy
                load = copy.deepcopy(t)
                load.ctx = ast.Load()
                return ast.Assign(targets=[t], value=call('__sx_mod__', self.visit(load),
                                                          self.visit(n.value)))
        self.generic_visit(n)
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        n.body = [ast.Expr(call('__sx_tick__'))] + n.body
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body = [ast.Expr(call('__sx_tick__'))] + n.body
        return n

    def visit_Delete(self, n):
        self.generic_visit(n)
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(call('__sx_delitem__', t.value, self.index(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None or (isinstance(n.type, ast.Name) and n.type.id == 'BaseException'):
            n.type = name('__sx_Exception__')
        return n

    # annotations are not evaluated symbolically
    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [d and self.visit(d) for d in n.kw_defaults]
        return n


def _aug(opname, o, i, v):
    import operator
    if type(i) in (runtime.SInt, runtime.SBool) and type(o) in (list, runtime.SArray):
        i = runtime.pick_index(len(o), i)
    cur = runtime.sx_getitem(o, i)
    if opname == 'imod':
        new = runtime.sx_mod(cur, v)
    else:
        new = getattr(operator, opname)(cur, v)
    runtime.sx_setitem(o, i, new)


def _setitem(v, o, i):
    runtime.sx_setitem(o, i, v)


def make_builtins(importer):
    d = dict(vars(builtins))
    d.update({
        '__sx_call__': runtime.sx_call, '__sx_in__': runtime.sx_in, '__sx_notin__': runtime.sx_notin,
        '__sx_not__': runtime.sx_not, '__sx_mod__': runtime.sx_mod, '__sx_getitem__': runtime.sx_getitem,
        '__sx_setitem__': _setitem, '__sx_delitem__': runtime.sx_delitem, '__sx_aug__': _aug,
        '__sx_and__': runtime.sx_and, '__sx_or__': runtime.sx_or, '__sx_mkdict__': runtime.sx_mkdict,
        '__sx_mkset__': runtime.sx_mkset, '__sx_fstr__': runtime.sx_fstr, '__sx_slice__': slice,
        '__sx_spread__': runtime.SPREAD, '__sx_enter__': runtime.sx_enter,
        '__sx_Exception__': Exception, '__sx_tick__': runtime.sx_tick, '__import__': importer,
    })
    return d


def rewrite_source(src, filename, modname):
    tree = ast.parse(src, filename)
    future = [s for s in tree.body if isinstance(s, ast.ImportFrom) and s.module == '__future__']
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, world, path):
        self.world = world
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        code = self.world.code_for(self.path, mod.__name__)
        mod.__dict__['__builtins__'] = self.world.builtins
        mod.__file__ = self.path
        exec(code, mod.__dict__)


class World(object):
    """One rewritten copy of the package (plus harness modules)."""

    def __init__(self, pkgdir, pkgname='xlrd_sx', realname='xlrd', shims=None):
        self.pkgdir = pkgdir
        self.pkgname = pkgname
        self.realname = realname
        self.codes = {}
        self.shims = {'struct': runtime.struct_shim, 'array': runtime.array_shim, 're': sre.shim}
        if shims:
            self.shims.update(shims)
        self.builtins = make_builtins(self._import)
        sys.meta_path.insert(0, self)
        self.base = None

    # meta path finder
    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.pkgname and not fullname.startswith(self.pkgname + '.'):
            return None
        rel = fullname.split('.')[1:]
        p = os.path.join(self.pkgdir, *rel)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            spec = importlib.machinery.ModuleSpec(fullname, Loader(self, f), origin=f,
                                                  is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        f = p + '.py'
        if os.path.exists(f):
            return importlib.machinery.ModuleSpec(fullname, Loader(self, f), origin=f)
        return None

    def code_for(self, path, modname):
        c = self.codes.get(path)
        if c is None:
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            short = modname.replace(self.pkgname, self.realname, 1)
            c = self.codes[path] = rewrite_source(src, path, short)
        return c

    def _import(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if nm in self.shims:
                return self.shims[nm]
            if nm == self.realname or nm.startswith(self.realname + '.'):
                alias = self.pkgname + nm[len(self.realname):]
                m = builtins.__import__(alias, globals, locals, fromlist, 0)
                return m
        return builtins.__import__(nm, globals, locals, fromlist, level)

    def load(self):
        for k in [k for k in sys.modules if k == self.pkgname or k.startswith(self.pkgname + '.')]:
            del sys.modules[k]
        builtins.__import__(self.pkgname)
        for f in sorted(os.listdir(self.pkgdir)):
            if f.endswith('.py') and f != '__init__.py':
                builtins.__import__(self.pkgname + '.' + f[:-3])
        self.base = self.fingerprint()
        return sys.modules[self.pkgname]

    def modules(self):
        return [m for k, m in sorted(sys.modules.items())
                if k == self.pkgname or k.startswith(self.pkgname + '.')]

    def fingerprint(self):
        """Shape of module- and class-level state, to notice leaks between paths."""
        out = []
        seen = set()

        def one(v, depth):
            t = type(v)
            if t in (list, runtime.SArray, dict, runtime.SDict, runtime.SSet, set, bytearray):
                if id(v) in seen:
                    return 0
                seen.add(id(v))
                if t in (dict, runtime.SDict):
                    vals = list(v.values())
                    return ('d', id(v), len(v), [id(x) if type(x) not in (int, str) else x
                                                 for x in vals],
                            [one(x, depth - 1) for x in vals] if depth else 0)
                vals = list(v)
                return ('l', id(v), len(vals), [id(x) if type(x) not in (int, str) else x
                                                for x in vals],
                        [one(x, depth - 1) for x in vals] if depth else 0)
            if t in (int, str, float, bool, bytes, type(None)):
                return v
            if isinstance(v, types.FunctionType):
                return (id(v), [one(x, 1) for x in (v.__defaults__ or ())],
                        [(k, id(x)) for k, x in vars(v).items()])
            if isinstance(v, type) and getattr(v, '__module__', '').startswith(self.pkgname):
                if id(v) in seen or depth < 0:
                    return 0
                seen.add(id(v))
                return [(k, one(x, 1)) for k, x in list(vars(v).items())
                        if k not in ('__dict__', '__weakref__', '__doc__')]
            d = getattr(v, '__dict__', None)
            if isinstance(d, dict) and getattr(type(v), '__module__', '').startswith(self.pkgname):
                return [(k, one(x, 1)) for k, x in list(d.items())]
            return id(v)
        for m in self.modules():
            for k, v in list(vars(m).items()):
                if k.startswith('__'):
                    continue
                out.append((m.__name__, k, one(v, 2)))
        return out
