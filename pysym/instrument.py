"""Loads /repo's current sources (and a few pure-Python stdlib modules) through
an AST rewrite that routes operations to the symbolic models."""
import ast
import builtins
import importlib
import importlib.util
import os
import re
import sys
import types

from . import terms as T
from . import models as M

PKG = 'symasn1'
# pure-Python stdlib modules that are executed symbolically too
STDLIB = {
    'datetime': '_pydatetime',
    '_pydatetime': '_pydatetime',
    'urllib.parse': 'urllib.parse',
    'encodings.idna': 'encodings.idna',
}
FUNCS = set()
_RET = {}


def _fn_enter(name):
    def tick():
        e = T.engine()
        if e is not None:
            e.tick()
    return tick


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.classes = []

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, fn, args, keywords=()):
        return ast.Call(func=self._name(fn), args=args, keywords=list(keywords))

    # functions: record execution
    def _func(self, node):
        self.stack.append(node.name)
        q = '.'.join(self.stack)
        self.keyed.append(set(
            x.value.id for x in ast.walk(node) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store)
            and isinstance(x.value, ast.Name) and not isinstance(x.slice, (ast.Constant, ast.Slice))))
        # decorators and defaults are rewritten too
        self.generic_visit(node)
        self.keyed.pop()
        self.stack.pop()
        doc = []
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        enter = ast.Expr(value=self._call('__S_enter__', [ast.Constant(value='%s:%s' % (self.mod, q))]))
        node.body = doc + [enter] + body
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.classes.append(node.name)
        self.generic_visit(node)
        self.classes.pop()
        self.stack.pop()
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(value=self._call('__S_tick__', [])))
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(value=self._call('__S_tick__', [])))
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.type = self._name('Exception')
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id.startswith('__S_'):
            return node
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                return node
            return ast.copy_location(self._call('__S_callm__', [node.func.value, ast.Constant(value=self._mangle(f.attr))] + node.args,
                                                node.keywords), node)
        return ast.copy_location(self._call('__S_call__', [node.func] + node.args, node.keywords), node)

    def _mangle(self, attr):
        if attr.startswith('__') and not attr.endswith('__'):
            # private name mangling inside a class
            if self.classes:
                return '_' + self.classes[-1].lstrip('_') + attr
        return attr

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self._call('__S_getitem__', [node.value, self._idx(node.slice)]), node)
        return node

    def _idx(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(func=self._name('__S_slice__'),
                            args=[s.lower or ast.Constant(value=None), s.upper or ast.Constant(value=None),
                                  s.step or ast.Constant(value=None)], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._idx(e) for e in s.elts], ctx=ast.Load())
        return s

    keyed = []

    def visit_Assign(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.Dict) and not node.value.keys and self.keyed and len(node.targets) == 1 \
                and isinstance(node.targets[0], ast.Name) and node.targets[0].id in self.keyed[-1]:
            node.value = ast.copy_location(self._call('__S_dict__', []), node.value)
            return node
        if not any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for t in node.targets for x in ast.walk(t)):
            return node
        # evaluation order: value first, as in Python, then the targets from left to right
        tmp = self._tmp()
        out = [ast.copy_location(ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=node.value), node)]
        for t in node.targets:
            self._store(t, self._name(tmp), node, out)
        return out

    def _tmp(self):
        self.ntmp = getattr(self, 'ntmp', 0) + 1
        return '__S_tmp%d__' % self.ntmp

    def _store(self, t, value, node, out):
        """append the statements that assign value to the target t"""
        if isinstance(t, ast.Subscript):
            out.append(ast.copy_location(ast.Expr(value=self._call('__S_setitem__', [self._load(t.value), self._idx(t.slice), value])), node))
        elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
            parts = []
            for e in t.elts:
                nm = self._tmp()
                star = isinstance(e, ast.Starred)
                parts.append((e.value if star else e, nm, star))
            names = [ast.Starred(value=ast.Name(id=nm, ctx=ast.Store()), ctx=ast.Store()) if star else ast.Name(id=nm, ctx=ast.Store())
                     for _, nm, star in parts]
            out.append(ast.copy_location(ast.Assign(targets=[ast.Tuple(elts=names, ctx=ast.Store())], value=value), node))
            for e, nm, _ in parts:
                self._store(e, self._name(nm), node, out)
        else:
            out.append(ast.copy_location(ast.Assign(targets=[t], value=value), node))

    def _load(self, n):
        return n

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(value=self._call('__S_delitem__', [t.value, self._idx(t.slice)])), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Subscript):
            t = node.target
            import copy as _c
            ops = self._call('__S_getitem__', [_c.deepcopy(t.value), self._idx(_c.deepcopy(t.slice))])
            val = ast.BinOp(left=ops, op=node.op, right=node.value)
            if isinstance(node.op, ast.Mod):
                val = self._call('__S_mod__', [ops, node.value])
            return ast.copy_location(ast.Expr(value=self._call('__S_setitem__', [t.value, self._idx(t.slice), val])), node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(targets=[node.target], value=self._call(
                '__S_mod__', [ast.Name(id=node.target.id, ctx=ast.Load()), node.value])), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            r = node.comparators[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                c = self._call('__S_in__', [node.left, r])
                if isinstance(op, ast.NotIn):
                    c = self._call('__S_not__', [c])
                return ast.copy_location(c, node)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value in (True, False) \
                    and type(r.value) is bool:
                c = self._call('__S_isbool__', [node.left, r])
                if isinstance(op, ast.IsNot):
                    c = self._call('__S_not__', [c])
                return ast.copy_location(c, node)
            if isinstance(op, (ast.Eq, ast.NotEq)) and (isinstance(r, ast.Tuple) or isinstance(node.left, ast.Tuple)):
                c = self._call('__S_tupeq__', [node.left, r])
                if isinstance(op, ast.NotEq):
                    c = self._call('__S_not__', [c])
                return ast.copy_location(c, node)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if all(isinstance(x, (ast.Name, ast.Constant)) for x in (node.body, node.orelse)):
            return ast.copy_location(self._call('__S_ifexp__', [node.test, node.body, node.orelse]), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._call('__S_mod__', [node.left, node.right]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = {-1: '', 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[val, ast.Constant(value=conv), spec], ctx=ast.Load()))
        return ast.copy_location(self._call('__S_fstr__', [ast.List(elts=parts, ctx=ast.Load())]), node)


def s_mod(l, r):
    tl = type(l)
    if tl is str or tl is bytes:
        return M.sym_mod(l, r)
    if tl is M.SymStr or tl is M.SymBytes:
        return M.sym_mod(l, r)
    return l % r


def s_tupeq(a, b):
    if type(a) is tuple and type(b) is tuple:
        return M.sym_eq(a, b)
    return a == b


def one_char(x):
    return type(x) is str and len(x) == 1 or type(x) is M.SymStr and len(x) == 1


def s_ifexp(c, a, b):
    """a choice between two single characters is not worth two paths"""
    if type(c) is T.SymBool and one_char(a) and one_char(b):
        x, y = (ord(v) if type(v) is str else v._items()[0] for v in (a, b))
        return M.SymStr.make([T.site(c, x, y)])
    return a if c else b


def s_isbool(a, b):
    if type(a) is T.SymBool:
        return bool(a) is b
    return a is b


def s_in(x, c):
    tc = type(c)
    if tc in (dict, set, frozenset, tuple, list, str, bytes) or tc in T.SYM_TYPES or isinstance(c, (dict, set, range)):
        return M.contains(x, c)
    if tc in (type({}.keys()), type({}.values())) and M.deepsym(x):
        return M.contains(x, c)
    return x in c


def s_enter(name):
    FUNCS.add(name)
    e = T.engine()
    if e is not None:
        e.tick()


def s_tick():
    e = T.engine()
    if e is not None:
        e.tick()


HELPERS = {
    '__S_dict__': M.SymPlainDict,
    '__S_call__': M.call,
    '__S_callm__': M.callm,
    '__S_getitem__': M.getitem,
    '__S_setitem__': M.setitem,
    '__S_delitem__': M.delitem,
    '__S_slice__': slice,
    '__S_in__': s_in,
    '__S_not__': T.snot,
    '__S_isbool__': s_isbool,
    '__S_tupeq__': s_tupeq,
    '__S_ifexp__': s_ifexp,
    '__S_mod__': s_mod,
    '__S_fstr__': M.fstr,
    '__S_enter__': s_enter,
    '__S_tick__': s_tick,
}


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


_real_import = builtins.__import__


CHECKS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks')


CHECK_NAME = re.compile(r'C\d\d$')


def load_hlib(name):
    m = _stdlib.get(name)
    if m is None:
        p = os.path.join(CHECKS, name + '.py')
        m = types.ModuleType('sym' + name)
        m.__file__ = p
        prepare(m)
        _stdlib[name] = m
        with open(p, encoding='utf-8') as f:
            src = f.read()
        exec(transform(src, p, 'check'), m.__dict__)
    return m


def _sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and (name.startswith('hlib') or CHECK_NAME.match(name)):
        # the checks' own helpers, or another check they build on
        return load_hlib(name)
    if level == 0 and name in STDLIB:
        mod = load_stdlib(STDLIB[name])
        if fromlist:
            return mod
        return _real_import(name, globals, locals, fromlist, level)
    if level == 0 and name == 'encodings' and fromlist and 'idna' in fromlist:
        load_stdlib('encodings.idna')
        return _real_import(name, globals, locals, fromlist, level)
    return _real_import(name, globals, locals, fromlist, level)


_stdlib = {}

URLLIB = '''

def _hexval(b):
    if b >= 48 and b <= 57:
        return b - 48
    if b >= 65 and b <= 70:
        return b - 55
    if b >= 97 and b <= 102:
        return b - 87
    return None

def _unquote_impl(string):
    if not string:
        string.split
        return b''
    if isinstance(string, str):
        string = string.encode('utf-8')
    bits = string.split(b'%')
    if len(bits) == 1:
        return string
    res = bits[0]
    for item in bits[1:]:
        h = _hexval(item[0]) if len(item) >= 2 else None
        l = _hexval(item[1]) if h is not None else None
        if l is None:
            res = res + b'%' + item
        else:
            res = res + bytes([h * 16 + l]) + item[2:]
    return res

def unquote_to_bytes(string):
    return _unquote_impl(string)

def _byte_quoter_factory(safe):
    safe = _ALWAYS_SAFE.union(safe)
    ranges = []
    for c in sorted(safe):
        if ranges and ranges[-1][1] == c - 1:
            ranges[-1][1] = c
        else:
            ranges.append([c, c])
    def quoter(b):
        for lo, hi in ranges:
            if b >= lo and b <= hi:
                return chr(b)
        h, l = b >> 4, b & 15
        return '%' + chr(h + 48 if h < 10 else h + 55) + chr(l + 48 if l < 10 else l + 55)
    return quoter
'''


class PurePy(object):
    pass


def load_stdlib(name):
    m = _stdlib.get(name)
    if m is None:
        spec = importlib.util.find_spec(name)
        with open(spec.origin, encoding='utf-8') as f:
            src = f.read()
        m = types.ModuleType('symstd_' + name.replace('.', '_'))
        m.__file__ = spec.origin
        m.__dict__['__name__'] = 'symstd_' + name.replace('.', '_')
        if '.' in name:
            m.__package__ = name.rpartition('.')[0]
        prepare(m)
        _stdlib[name] = m
        sys.modules[m.__name__] = m
        if name == '_pydatetime':
            # same code, minus the C replacement at the end
            pass
        if name == 'urllib.parse':
            # the same functions without their caches and tables of all octets
            src = src.replace('@functools.lru_cache(typed=True)\n', '').replace('@functools.lru_cache\n', '') + URLLIB
        exec(transform(src, spec.origin, name), m.__dict__)
        if name == '_pydatetime':
            # the C datetime raises ValueError/TypeError itself for wrong argument kinds;
            # the pure-Python class reads integers through operator.index
            m.__dict__['_index'] = lambda x: x if isinstance(x, int) else __import__('operator').index(x)
            from . import dates
            dates.patch(m)
    return m


def stdlib_codec(name):
    return load_stdlib(name)


_builtins = None


def prepare(m):
    global _builtins
    if _builtins is None:
        _builtins = dict(builtins.__dict__)
        _builtins['__import__'] = _sym_import
    m.__dict__['__builtins__'] = _builtins
    m.__dict__.update(HELPERS)


class Loader(object):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        prepare(module)
        module.__file__ = self.path
        short = module.__name__[len(PKG):].lstrip('.') or '__init__'
        exec(transform(src, self.path, short), module.__dict__)
        post = POST.get(short)
        if post:
            post(module)
        snapshot_globals(module)


_globals = []


def snapshot_globals(module):
    """remember the module level containers, so that every path starts from the same ones"""
    for k, v in module.__dict__.items():
        if type(v) in (dict, list, set) and not k.startswith('__'):
            _globals.append((v, type(v)(v)))


_PLAIN = (str, bytes, int, bool, float, type(None), type)


def restore_globals():
    """drop what an earlier path has left in module level containers, other than plain constants"""
    for v, saved in _globals:
        if len(v) == len(saved):
            continue
        if type(v) is dict:
            for k in list(v):
                if k not in saved:
                    if type(k) in _PLAIN and type(v[k]) in _PLAIN:
                        saved[k] = v[k]
                    else:
                        del v[k]
            v.update(saved)
        else:
            v.clear()
            (v.extend if type(v) is list else v.update)(saved)


def _post_errors(m):
    # message formatting is not modelled: texts of exceptions are not part of any property
    orig = m.unwrap

    def unwrap(string, *params):
        if M.deepsym(params):
            return string
        return orig(string, *params)
    m.unwrap = unwrap


POST = {'_errors': _post_errors}


class Finder(object):
    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        rel = fullname.split('.')[1:]
        base = os.path.join(self.root, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            return importlib.util.spec_from_loader(
                fullname, Loader(os.path.join(base, '__init__.py'), True), is_package=True,
                origin=os.path.join(base, '__init__.py'))
        p = base + '.py'
        if os.path.exists(p):
            spec = importlib.util.spec_from_loader(fullname, Loader(p, False), origin=p)
            return spec
        return None


_installed = False


def install(repo='/repo'):
    global _installed
    if not _installed:
        sys.meta_path.insert(0, Finder(os.path.join(repo, 'asn1crypto')))
        sys.dont_write_bytecode = True
        _installed = True


class Lib(object):
    """the package under test (instrumented or real) plus datetime"""
    def __init__(self, prefix, dt):
        self._p = prefix
        self.datetime = dt
        self.symbolic = prefix == PKG

    def __getattr__(self, name):
        m = importlib.import_module(self._p + '.' + name)
        setattr(self, name, m)
        return m


_libs = {}


def sym_lib(repo='/repo'):
    if 'sym' not in _libs:
        install(repo)
        _libs['sym'] = Lib(PKG, load_stdlib('_pydatetime'))
    return _libs['sym']


def real_lib(repo='/repo'):
    if 'real' not in _libs:
        import datetime
        sys.dont_write_bytecode = True
        if repo not in sys.path:
            sys.path.insert(0, repo)
        _libs['real'] = Lib('asn1crypto', datetime)
    return _libs['real']
