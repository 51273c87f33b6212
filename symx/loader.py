"""Loads the repository's modules for symbolic execution.

The source of every ucis module is read from the repository on each run, its
AST is rewritten so that constructs Python does not let a class overload (dict
displays, f-strings, '%' on literal strings, 'in' on literal strings, ...) go
through proxy-aware helpers, and it is executed with a private __builtins__
mapping.  No repository file is modified.
"""
import ast
import builtins
import collections
import os
import sys
import types

from . import proxies as P
from .engine import Control

SRC = os.environ.get("VERIF_UCIS_SRC", "/repo/src")

_STR_METHODS = {
    "join", "format", "startswith", "endswith", "find", "rfind", "index", "rindex", "count",
    "replace", "split", "rsplit", "strip", "lstrip", "rstrip", "partition", "rpartition",
    "removeprefix", "removesuffix", "ljust", "rjust", "center", "zfill", "translate",
}


# --------------------------------------------------------------- runtime helpers
def sx_dict(items):
    d = P.SymDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def sx_set(items):
    return P.SymSet(items)


def sx_fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 114:
                v = P.sym_repr(v)
            elif conv == 115:
                v = P.sym_str(v)
            elif conv == 97:
                v = ascii(v)
            out.extend(P.segs_of(P.sym_format(v, spec)))
        else:
            out.append(p)
    return P.mkstr(out)


def sx_mod(a, b):
    if isinstance(a, (str, P.SymStr)):
        return P.str_mod(a, b)
    return a % b


def sx_div(a, b):
    if type(a) is int and type(b) is int:
        return P.sym_div(a, b)
    return a / b


def sx_in(a, b):
    if isinstance(b, str):
        if isinstance(a, P.SymStr):
            return P.SymStr((b,)).contains(a) if b else False
        return a in b
    if isinstance(b, P.SymStr):
        if not isinstance(a, (str, P.SymStr)):
            raise TypeError("'in <string>' requires string as left operand")
        return b.contains(a)
    if isinstance(b, (dict, set, frozenset)) and P._key_has_sym(a):
        return any(P.key_eq(a, k) for k in b)
    if isinstance(b, type({}.keys())) and P._key_has_sym(a):
        return any(P.key_eq(a, k) for k in b)
    return a in b


def sx_notin(a, b):
    return P.sym_not(sx_in(a, b))


def sx_call(obj, name, *args, **kw):
    if type(obj) is str:
        if name == "format":
            return P.str_format(obj, args, kw)
        if name == "join":
            if len(args) == 1:
                items = list(args[0])
                if any(isinstance(x, P.SymStr) for x in items):
                    return P.str_join(obj, items)
                return obj.join(items)
        if any(isinstance(a, P.SymStr) or (isinstance(a, tuple) and any(isinstance(x, P.SymStr) for x in a))
               for a in args):
            return getattr(P.SymStr((obj,)) if obj else _EmptyStr(), name)(*args, **kw)
        if any(isinstance(a, P.SymInt) for a in args):
            args = tuple(int(a) if isinstance(a, P.SymInt) else a for a in args)
    return getattr(obj, name)(*args, **kw)


class _EmptyStr(object):
    def startswith(self, *a): return False
    endswith = startswith
    def find(self, *a): return -1
    rfind = find
    def count(self, *a): return 0
    def replace(self, *a): return ""
    def split(self, *a): return [""]
    def strip(self, *a): return ""
    lstrip = rstrip = removeprefix = removesuffix = strip
    def partition(self, *a): return ("", "", "")
    rpartition = partition


# --------------------------------------------------------------- type shims
class _ShimMeta(type):
    def __call__(cls, *a, **k):
        return cls._call(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, cls._types)

    def __subclasscheck__(cls, c):
        if isinstance(c, _ShimMeta):
            return issubclass(c._real, cls._real)
        return issubclass(c, cls._types)

    def __eq__(cls, o):
        return o is cls or o is cls._real or o in cls._types

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        if cls._real is str and n in dir(str) and n not in ("maketrans",):
            return lambda s, *a, **k: sx_call(s, n, *a, **k)
        if cls._real is dict and n not in ("mro",):
            if n == "fromkeys":
                return lambda it, v=None: P.SymDict([(k, v) for k in it])
            if n in P.SymDict.__dict__:
                return lambda d, *a, **k: getattr(d, n)(*a, **k)
        if cls._real is set and n in P.SymSet.__dict__ and not n.startswith("__"):
            return lambda d, *a, **k: getattr(d if isinstance(d, P.SymSet) else P.SymSet(d), n)(*a, **k)
        return getattr(cls._real, n)

    def __repr__(cls):
        return repr(cls._real)

    @property
    def __name__(cls):
        return cls._real.__name__


def _shim(real, types_, call):
    return _ShimMeta("Shim_" + real.__name__, (), {"_real": real, "_types": types_, "_call": staticmethod(call)})


def _bool_call(x=False):
    if isinstance(x, P.SymBool):
        return x
    if isinstance(x, P.SymInt):
        return x != 0
    return bool(x)


def _fs_call(it=()):
    items = list(it)
    if any(P._key_has_sym(x) for x in items):
        return P.SymSet(items)
    return frozenset(items)


STR = _shim(str, (str, P.SymStr), P.sym_str)
INT = _shim(int, (int, P.SymInt, P.SymBool), P.sym_int)
FLOAT = _shim(float, (float, P.SymReal), P.sym_float)
BOOL = _shim(bool, (bool, P.SymBool), _bool_call)
DICT = _shim(dict, (dict, P.SymDict), lambda *a, **k: P.SymDict(*a, **k))
SET = _shim(set, (set, P.SymSet), lambda *a: P.SymSet(*a))
FSET = _shim(frozenset, (frozenset, P.SymSet), _fs_call)

_TYPE_MAP = {str: STR, P.SymStr: STR, int: INT, P.SymInt: INT, float: FLOAT, P.SymReal: FLOAT,
             bool: BOOL, P.SymBool: BOOL, dict: DICT, P.SymDict: DICT, set: SET, P.SymSet: SET}


def _type_call(*a, **k):
    if len(a) == 1 and not k:
        t = type(a[0])
        return _TYPE_MAP.get(t, t)
    name, bases, ns = a
    return type(name, tuple(_unshim(b) for b in bases), dict(ns.items()), **k)


TYPE = _shim(type, (type,), _type_call)


def _unshim(b):
    if isinstance(b, _ShimMeta):
        if b is DICT:
            return P.SymDict
        if b is SET:
            return P.SymSet
        return b._real
    return b


def _build_class(func, name, *bases, **kw):
    return builtins.__build_class__(func, name, *[_unshim(b) for b in bases], **kw)


def _ord(c):
    if isinstance(c, P.SymStr):
        cs = c.chars()
        if len(cs) != 1:
            raise TypeError("ord() expected a character")
        return P.mkint(P._ord(cs[0]))
    return ord(c)


def _chr(i):
    if isinstance(i, P.SymInt):
        return P.mkstr([i.z()])
    return chr(i)


def _sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


# --------------------------------------------------------------- AST rewriting
class Rewriter(ast.NodeTransformer):

    def _call(self, fn, *args, at):
        n = ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=list(args), keywords=[])
        return ast.copy_location(n, at)

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self._call("__sx_dict__", ast.List(elts=items, ctx=ast.Load()), at=node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                          generators=node.generators)
        return self._call("__sx_dict__", ast.copy_location(lc, node), at=node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call("__sx_set__", ast.List(elts=node.elts, ctx=ast.Load()), at=node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return self._call("__sx_set__", ast.copy_location(lc, node), at=node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[val, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return self._call("__sx_fstr__", ast.List(elts=parts, ctx=ast.Load()), at=node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__sx_mod__", node.left, node.right, at=node)
        if isinstance(node.op, ast.Div):
            return self._call("__sx_div__", node.left, node.right, at=node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Mod, ast.Div)):
            t = node.target
            ok = isinstance(t, ast.Name) or (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name))
            if ok:
                import copy
                ld = copy.deepcopy(t)
                ld.ctx = ast.Load()
                fn = "__sx_mod__" if isinstance(node.op, ast.Mod) else "__sx_div__"
                new = ast.Assign(targets=[t], value=self._call(fn, ld, node.value, at=node))
                return ast.copy_location(new, node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return self._call("__sx_in__", node.left, node.comparators[0], at=node)
            if isinstance(node.ops[0], ast.NotIn):
                return self._call("__sx_notin__", node.left, node.comparators[0], at=node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in _STR_METHODS:
            new = ast.Call(func=ast.Name(id="__sx_call__", ctx=ast.Load()),
                           args=[f.value, ast.Constant(value=f.attr)] + node.args,
                           keywords=node.keywords)
            return ast.copy_location(new, node)
        return node

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            for h in node.handlers:
                if h.type is None:
                    h.type = ast.copy_location(ast.Name(id="Exception", ctx=ast.Load()), h)
            first = ast.ExceptHandler(
                type=ast.Name(id="__sx_Control__", ctx=ast.Load()), name=None,
                body=[ast.Raise(exc=None, cause=None)])
            ast.copy_location(first, node.handlers[0])
            ast.fix_missing_locations(first)
            node.handlers.insert(0, first)
        return node

    visit_TryStar = visit_Try


def rewrite(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# --------------------------------------------------------------- the world
WORLD = None


class World(object):
    """One process-wide loader; .reset() discards all module state between paths."""

    def __init__(self, src=None, stubs=None):
        global WORLD
        WORLD = self
        self.harness_roots = {}
        self.src = src or SRC
        self.code = {}        # module name -> (code, filename, is_pkg)
        self.mods = {}
        self.stub_factory = stubs or {}
        self.stubs = {}
        self.env = None       # environment object shared with stubs (virtual files, clock, ...)
        self.builtins = self._mk_builtins()
        self.out = []

    def _mk_builtins(self):
        b = dict(builtins.__dict__)
        b.update({
            "str": STR, "int": INT, "float": FLOAT, "bool": BOOL, "dict": DICT, "set": SET,
            "frozenset": FSET, "type": TYPE, "ord": _ord, "chr": _chr, "sum": _sum,
            "repr": P.sym_repr, "format": P.sym_format,
            "__build_class__": _build_class, "__import__": self._import,
            "print": self._print, "open": self._open,
            "__sx_dict__": sx_dict, "__sx_set__": sx_set, "__sx_fstr__": sx_fstr,
            "__sx_mod__": sx_mod, "__sx_div__": sx_div, "__sx_in__": sx_in,
            "__sx_notin__": sx_notin, "__sx_call__": sx_call, "__sx_Control__": Control,
        })
        return b

    def _print(self, *a, **k):
        f = k.get("file")
        txt = P.str_join(k.get("sep", " "), [P.sym_str(x) for x in a]) + k.get("end", "\n")
        if f is not None and hasattr(f, "write") and f is not sys.stderr and f is not sys.stdout:
            f.write(txt)
        else:
            self.env.printed.append(txt)

    def _open(self, *a, **k):
        return self.env.open(*a, **k)

    # ---- import machinery
    def _find(self, name):
        if name in self.code:
            return self.code[name]
        base = os.path.join(self.src, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.exists(base + ".py"):
            fn, pkg = base + ".py", False
        elif os.path.isdir(base):
            fn, pkg = None, True
        else:
            return None
        code = None
        if fn is not None:
            with open(fn, "rb") as fp:
                code = rewrite(fp.read(), fn)
        self.code[name] = (code, fn, pkg)
        return self.code[name]

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = name.rpartition(".")[0]
        if parent:
            pm = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        else:
            pm = None
        f = self._find(name)
        if f is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        code, fn, pkg = f
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__dict__["__builtins__"] = self.builtins
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.join(self.src, *name.split("."))]
        self.mods[name] = m
        sys.modules[name] = m
        if code is not None:
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                sys.modules.pop(name, None)
                raise
        if pm is not None:
            setattr(pm, name.rpartition(".")[2], m)
        return m

    def _stub(self, name):
        if name in self.stubs:
            return self.stubs[name]
        m = self.stub_factory[name](self)
        self.stubs[name] = m
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals.get("__package__") or globals["__name__"]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        top = name.split(".")[0]
        if top in self.harness_roots:
            if top not in self.mods:
                self.mods[top] = self.load_harness(self.harness_roots[top], top)
            return self.mods[top]
        if top == "ucis":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f == "*":
                        continue
                    if not hasattr(m, f) and hasattr(m, "__path__"):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError as e:
                            if e.name != name + "." + f:
                                raise
                return m
            return self.mods[top]
        if name in self.stub_factory:
            m = self._stub(name)
            if fromlist or "." not in name:
                return m
            for i in range(1, len(name.split("."))):
                pass
            return self._stub(top)
        if top in self.stub_factory:
            t = self._stub(top)
            m = t
            for p in name.split(".")[1:]:
                if not hasattr(m, p):
                    raise ModuleNotFoundError("No module named %r" % name, name=name)
                m = getattr(m, p)
            return m if fromlist else t
        return builtins.__import__(name, globals, locals, fromlist, level)

    def reset(self, env):
        for n in list(self.mods):
            sys.modules.pop(n, None)
        self.mods = {}
        self.stubs = {}
        self.env = env

    def restore(self, mk_env):
        """Fresh module state for the next path."""
        self.reset(mk_env())

    def imp(self, name):
        """Import a repository module (dotted path) and return it."""
        return self.load(name)

    def load_harness(self, path, name):
        """Execute a harness module rewritten, with the same builtins."""
        key = "#" + path
        if key not in self.code:
            with open(path, "rb") as fp:
                self.code[key] = (rewrite(fp.read(), path), path, False)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        exec(self.code[key][0], m.__dict__)
        return m
