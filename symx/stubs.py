"""Stand-ins for the external modules the code under test imports.

Each one follows the documented contract of the module it replaces; they are
listed in DESIGN.md as part of every claim, and validated by replaying solver
models against the real libraries."""
import collections
import copy as _copy
import io as _io
import json as _json
import math as _math
import os as _os
import re as _re
import sys as _sys
import types

import z3
import yaml as _yaml

from . import engine as E
from . import fake_lxml
from . import proxies as P
from . import symre
from .engine import Unsupported
from .vfs import SymIO, SymTBIO, SymBIO, SymBytes, VFile


def _mod(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def _clone_of(real, name=None, **over):
    m = types.ModuleType(name or real.__name__)
    for k, v in real.__dict__.items():
        if not (k.startswith("__") and k.endswith("__")):
            setattr(m, k, v)
    for k, v in over.items():
        setattr(m, k, v)
    return m


# ------------------------------------------------------------------ documents
def has_sym(x):
    if P.is_sym(x):
        return True
    if isinstance(x, (dict, P.SymDict)):
        return any(has_sym(k) or has_sym(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def doc_in(x, memo=None):
    """Plain containers -> SymDict/list copies (with memo: nodes used twice stay shared)."""
    if memo is not None and id(x) in memo:
        return memo[id(x)]
    if isinstance(x, (dict, P.SymDict)):
        r = P.SymDict()
        if memo is not None:
            memo[id(x)] = r
        for k, v in x.items():
            r[k] = doc_in(v, memo)
        return r
    if isinstance(x, (list, tuple)):
        r = []
        if memo is not None:
            memo[id(x)] = r
        r.extend([doc_in(v, memo) for v in x])
        return r
    return x


def doc_plain(x, memo=None):
    if memo is not None and id(x) in memo:
        return memo[id(x)]
    if isinstance(x, (dict, P.SymDict)):
        r = {}
        if memo is not None:
            memo[id(x)] = r
        r.update([(k, doc_plain(v, memo)) for k, v in x.items()])
        return r
    if isinstance(x, (list, tuple)):
        r = []
        if memo is not None:
            memo[id(x)] = r
        r.extend([doc_plain(v, memo) for v in x])
        return r
    return x


# ------------------------------------------------------------------ json
def mk_json(world):
    def check(x, default):
        if x is None or isinstance(x, (str, bool, int, float, P.SymStr, P.SymInt, P.SymReal, P.SymBool)):
            return x
        if isinstance(x, (dict, P.SymDict)):
            r = P.SymDict()
            for k, v in x.items():
                if not isinstance(k, (str, P.SymStr)):
                    if isinstance(k, (int, float, bool)) or k is None:
                        k = _json.loads(_json.dumps({k: 0}).replace(": 0}", "").lstrip("{")) if False else str(k)
                    else:
                        raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)
                r[k] = check(v, default)
            return r
        if isinstance(x, (list, tuple)):
            return [check(v, default) for v in x]
        if default is not None:
            return check(default(x), default)
        raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)

    def dumps(obj, **kw):
        d = check(obj, kw.pop("default", None))
        if has_sym(d):
            if kw.get("sort_keys"):
                pass
            return P.mkstr([P.Opq("json", d, kw.get("ensure_ascii", True) is True)])
        kw.pop("cls", None)
        return _json.dumps(doc_plain(d), **kw)

    def dump(obj, fp, **kw):
        fp.write(dumps(obj, **kw))

    def loads(s, **kw):
        if isinstance(s, P.SymStr):
            ops = [x for x in s.segs if isinstance(x, P.Opq)]
            if len(ops) == 1 and ops[0].kind == "json" and all(
                    x is ops[0] or (isinstance(x, str) and x.strip() == "") for x in s.segs):
                return doc_in(ops[0].obj)
            if ops:
                raise ValueError("invalid JSON document")
            s = s.realise("json text")
        return doc_in(_json.loads(s))

    def load(fp, **kw):
        return loads(fp.read())
    return _mod("json", dumps=dumps, dump=dump, loads=loads, load=load,
                JSONDecodeError=_json.JSONDecodeError, JSONEncoder=_json.JSONEncoder)


# ------------------------------------------------------------------ yaml
def mk_yaml(world):
    def load(stream, Loader=None):
        txt = stream.read() if hasattr(stream, "read") else stream
        if isinstance(txt, P.EncBytes):
            if P.norm_enc(txt.enc) not in ("utf-8", "utf-8-sig", "utf-16") and P.has_above(txt.s, 127):
                raise _yaml.YAMLError("invalid byte")
            txt = txt.s
        if isinstance(txt, P.SymStr):
            ops = [x for x in txt.segs if isinstance(x, P.Opq)]
            if len(ops) == 1 and ops[0].kind in ("yaml", "json") and all(
                    x is ops[0] or (isinstance(x, str) and x.strip() == "") for x in txt.segs):
                return doc_in(ops[0].obj, {} if ops[0].kind == "yaml" else None)
            if ops:
                raise _yaml.YAMLError("invalid document")
            txt = txt.realise("yaml text")
        return doc_in(_yaml.safe_load(txt), {})

    def safe_load(s):
        return load(s)

    def dump(obj, stream=None, **kw):
        d = doc_in(obj, {})
        t = P.mkstr([P.Opq("yaml", d, not kw.get("allow_unicode"))]) if has_sym(d) else _yaml.safe_dump(doc_plain(d, {}), **{
            k: v for k, v in kw.items() if k != "Dumper"})
        if stream is None:
            return t
        stream.write(t)
    loader = _mod("yaml.loader", Loader=_yaml.Loader, FullLoader=_yaml.FullLoader,
                  SafeLoader=_yaml.SafeLoader, BaseLoader=_yaml.BaseLoader)
    return _mod("yaml", load=load, safe_load=safe_load, full_load=safe_load, dump=dump, safe_dump=dump,
                FullLoader=_yaml.FullLoader, SafeLoader=_yaml.SafeLoader, Loader=_yaml.Loader,
                BaseLoader=_yaml.BaseLoader, CSafeLoader=_yaml.SafeLoader,
                YAMLError=_yaml.YAMLError, loader=loader)


# ------------------------------------------------------------------ jsonschema
class ValidationError(Exception):
    def __init__(self, message="", *a, **k):
        Exception.__init__(self, message)
        self.message = message
        self.path = ()
        self.absolute_path = ()


class SchemaError(Exception):
    pass


_KNOWN_KW = {"$schema", "$id", "id", "title", "description", "type", "properties", "defs", "definitions",
             "items", "$ref", "required", "additionalProperties", "$$target", "enum", "minimum", "maximum",
             "default", "$defs", "examples", "minItems", "minLength", "exclusiveMinimum", "maxItems"}


def _is_type(x, t):
    if t == "object":
        return isinstance(x, (dict, P.SymDict))
    if t == "array":
        return isinstance(x, list)
    if t == "string":
        return isinstance(x, (str, P.SymStr))
    if t == "integer":
        if isinstance(x, (bool, P.SymBool)):
            return False
        return isinstance(x, (int, P.SymInt)) or (isinstance(x, float) and x.is_integer())
    if t == "number":
        if isinstance(x, (bool, P.SymBool)):
            return False
        return isinstance(x, (int, float, P.SymInt, P.SymReal))
    if t == "boolean":
        return isinstance(x, (bool, P.SymBool))
    if t == "null":
        return x is None
    raise Unsupported("schema type %s" % t)


def js_validate(x, sch, root):
    if "$ref" in sch:
        r = sch["$ref"]
        if not r.startswith("#/"):
            raise Unsupported("remote $ref")
        s = root
        for p in r[2:].split("/"):
            s = s[p]
        # draft-04: siblings of $ref are ignored
        return js_validate(x, s, root)
    for k in sch.keys():
        if k not in _KNOWN_KW:
            raise Unsupported("schema keyword %s" % k)
    if "type" in sch:
        ts = sch["type"] if isinstance(sch["type"], list) else [sch["type"]]
        if not any(_is_type(x, t) for t in ts):
            raise ValidationError("%s is not of type %s" % (type(x).__name__, ts))
    if "enum" in sch:
        ok = False
        for v in sch["enum"]:
            ok = P.sym_or(ok, x == v)
        if not ok:
            raise ValidationError("not one of the enumeration")
    if _is_type(x, "number"):
        if "minimum" in sch:
            lo = sch["minimum"]
            if sch.get("exclusiveMinimum") is True:
                if not (x > lo):
                    raise ValidationError("less than minimum")
            elif not (x >= lo):
                raise ValidationError("less than minimum")
        if "maximum" in sch and not (x <= sch["maximum"]):
            raise ValidationError("more than maximum")
    if isinstance(x, (str, P.SymStr)) and "minLength" in sch and len(x) < sch["minLength"]:
        raise ValidationError("too short")
    if isinstance(x, (dict, P.SymDict)):
        props = sch["properties"] if "properties" in sch else {}
        for k in (sch["required"] if "required" in sch else []):
            if k not in x:
                raise ValidationError("%r is a required property" % k)
        for k, v in x.items():
            if k in props:
                js_validate(v, props[k], root)
            elif "additionalProperties" in sch:
                ap = sch["additionalProperties"]
                if ap is False:
                    raise ValidationError("Additional properties are not allowed (%r)" % (k,))
                if ap is not True:
                    js_validate(v, ap, root)
    if isinstance(x, list):
        if "minItems" in sch and len(x) < sch["minItems"]:
            raise ValidationError("too short")
        if "maxItems" in sch and len(x) > sch["maxItems"]:
            raise ValidationError("too long")
        if "items" in sch:
            for v in x:
                js_validate(v, sch["items"], root)


def mk_jsonschema(world):
    def validate(instance, schema, *a, **k):
        js_validate(instance, schema, schema)

    class Draft(object):
        def __init__(self, schema, *a, **k):
            self.schema = schema

        def validate(self, inst):
            js_validate(inst, self.schema, self.schema)

        def is_valid(self, inst):
            try:
                self.validate(inst)
                return True
            except ValidationError:
                return False

        def iter_errors(self, inst):
            try:
                self.validate(inst)
            except ValidationError as e:
                yield e

        @classmethod
        def check_schema(cls, s):
            pass
    exc = _mod("jsonschema.exceptions", ValidationError=ValidationError, SchemaError=SchemaError)
    return _mod("jsonschema", validate=validate, ValidationError=ValidationError, SchemaError=SchemaError,
                exceptions=exc, Draft4Validator=Draft, Draft7Validator=Draft,
                validators=_mod("jsonschema.validators", Draft4Validator=Draft))


# ------------------------------------------------------------------ python_jsonschema_objects
class PjsValidationError(Exception):
    pass


class PjsArray(list):
    """ArrayWrapper: items are coerced to the schema's item class on access."""
    _sch = None
    _bld = None

    def _typed(self):
        for i in range(list.__len__(self)):
            v = list.__getitem__(self, i)
            n = self._bld.coerce(v, self._sch)
            if n is not v:
                list.__setitem__(self, i, n)

    def __iter__(self):
        self._typed()
        i = 0
        while i < list.__len__(self):
            yield list.__getitem__(self, i)
            i += 1

    def __getitem__(self, i):
        self._typed()
        return list.__getitem__(self, i)


class PjsObject(object):
    _sch = None
    _bld = None

    def __init__(self, **props):
        object.__setattr__(self, "_p", {k: None for k in self._props()})
        object.__setattr__(self, "_x", {})
        for k, v in props.items():
            if v is not None:
                setattr(self, k, v)

    @classmethod
    def _props(cls):
        return cls._sch["properties"] if "properties" in cls._sch else {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self._p:
            return self._p[n]
        if n in self._x:
            return self._x[n]
        raise AttributeError("%s is not a valid property of %s" % (n, type(self).__name__))

    def __setattr__(self, n, v):
        pr = self._props()
        if n in pr:
            self._p[n] = self._bld.coerce(v, pr[n])
        else:
            if "additionalProperties" in self._sch and self._sch["additionalProperties"] is False:
                raise PjsValidationError("Attempted to set unknown property '%s'" % n)
            if not (v is None or isinstance(v, (list, str, int, float, bool, dict, P.SymDict, P.SymStr, P.SymInt,
                                                P.SymReal, P.SymBool))):
                raise PjsValidationError("Attempted to set unknown property '%s'" % n)
            self._x[n] = v

    def __delattr__(self, n):
        if n in self._p:
            self._p[n] = None
        else:
            del self._x[n]

    def __getitem__(self, k):
        return getattr(self, k)

    def __setitem__(self, k, v):
        setattr(self, k, v)

    def keys(self):
        return list(self._x) + list(self._p)

    def __iter__(self):
        return iter(self.keys())

    def __contains__(self, k):
        return k in self._p or k in self._x

    def get(self, k, d=None):
        try:
            return getattr(self, k)
        except AttributeError:
            return d

    def items(self):
        return [(k, getattr(self, k)) for k in self.keys()]

    def as_dict(self):
        out = P.SymDict()
        for k in self.keys():
            v = getattr(self, k)
            if v is None:
                continue
            out[k] = _pjs_json(v)
        return out

    for_json = as_dict

    def serialize(self, **kw):
        return P.mkstr([P.Opq("json", self.as_dict(), True)])

    def validate(self):
        for r in (self._sch["required"] if "required" in self._sch else []):
            if self._p.get(r) is None:
                raise PjsValidationError("'%s' are required attributes" % r)
        for v in self._p.values():
            if isinstance(v, PjsObject):
                v.validate()
            elif isinstance(v, PjsArray):
                for y in v:
                    if isinstance(y, PjsObject):
                        y.validate()
        return True

    @classmethod
    def from_json(cls, txt):
        if isinstance(txt, P.SymStr):
            ops = [x for x in txt.segs if isinstance(x, P.Opq)]
            if len(ops) != 1:
                raise ValueError("invalid JSON")
            doc = doc_in(ops[0].obj)
        else:
            doc = doc_in(_json.loads(txt))
        obj = cls(**{k: v for k, v in doc.items()})
        obj.validate()
        return obj

    def __eq__(self, o):
        if not isinstance(o, PjsObject):
            return False
        return self.as_dict() == o.as_dict()

    __hash__ = None


def _pjs_json(v):
    if isinstance(v, PjsObject):
        return v.as_dict()
    if isinstance(v, list):
        return [_pjs_json(x) for x in v]
    return v


class PjsBuilder(object):
    def __init__(self, schema, *a, **k):
        self.schema = schema
        self.classes_ = {}

    def _resolve(self, sch):
        if "$ref" in sch:
            s = self.schema
            for p in sch["$ref"][2:].split("/"):
                s = s[p]
            return s
        return sch

    def _cls(self, sch, name=None):
        k = id(sch)
        if k not in self.classes_:
            nm = sch["title"] if "title" in sch else (name or "obj")
            self.classes_[k] = type(_camel(nm), (PjsObject,), {"_sch": sch, "_bld": self})
        return self.classes_[k]

    def _is_obj(self, s):
        return ("type" in s and s["type"] == "object") or ("properties" in s and "type" not in s)

    def coerce(self, v, sch):
        s = self._resolve(sch)
        if self._is_obj(s):
            c = self._cls(s)
            if isinstance(v, c):
                return v
            if isinstance(v, PjsObject):
                r = c(**{k: x for k, x in v.items()})
                return r
            if isinstance(v, (dict, P.SymDict)):
                r = c(**{k: x for k, x in v.items()})
                r.validate()
                return r
            raise PjsValidationError("%s is not a valid value for %s" % (type(v).__name__, c.__name__))
        t = s["type"]
        if t == "array":
            if isinstance(v, PjsArray) and v._sch is not None and v._sch is s.get("items"):
                return v
            if not isinstance(v, (list, tuple)):
                raise TypeError("Invalid value given to array validator: %r" % (v,))
            a = PjsArray(v)
            if "items" in s:
                a._sch = s["items"]
                a._bld = self
                a._typed()
            return a
        ok = {
            "string": lambda: isinstance(v, (str, P.SymStr)),
            "integer": lambda: isinstance(v, (int, P.SymInt)) and not isinstance(v, bool),
            "number": lambda: isinstance(v, (int, float, P.SymInt, P.SymReal)),
            "boolean": lambda: isinstance(v, (bool, P.SymBool)),
            "null": lambda: v is None,
        }[t]()
        if not ok:
            raise PjsValidationError("%s is not a %s" % (type(v).__name__, t))
        if "minimum" in s and not (v >= s["minimum"]):
            raise PjsValidationError("less than minimum")
        return v

    def build_classes(self, *a, **k):
        ns = {}

        def walk(s, name):
            if "$ref" in s:
                n = s["$ref"].split("/")[-1]
                s = self._resolve(s)
                name = n
                if id(s) in seen:
                    return
            if id(s) in seen:
                return
            seen.add(id(s))
            if self._is_obj(s):
                c = self._cls(s, name)
                ns[c.__name__] = c
                if "properties" in s:
                    for pn, ps in s["properties"].items():
                        walk(ps, pn)
            elif "items" in s:
                walk(s["items"], name)
        seen = set()
        walk(self.schema, "root")
        return types.SimpleNamespace(**ns)

    @property
    def classes(self):
        return self.build_classes()


def _camel(t):
    t = _re.sub(r"[^a-zA-Z0-9\-_]+", "_", str(t)).strip("_").lower() if " " in str(t) else str(t).lower()
    return "".join(p[:1].upper() + p[1:] for p in t.split("_"))


def mk_pjs(world):
    return _mod("python_jsonschema_objects", ObjectBuilder=PjsBuilder, ValidationError=PjsValidationError)


# ------------------------------------------------------------------ collections / copy / io
def mk_collections(world):
    return _clone_of(collections, defaultdict=P.SymDefaultDict, OrderedDict=P.SymDict, Counter=P.SymCounter)


def mk_io(world):
    def StringIO(initial="", newline="\n"):
        s = SymIO(initial if initial is not None else "", "<StringIO>", "w+")
        return s
    def BytesIO(initial=b""):
        if isinstance(initial, P.EncBytes):
            return SymTBIO(initial.s, "<BytesIO>", "w+", enc=initial.enc)
        return SymTBIO(initial.decode("utf-8") if initial else "", "<BytesIO>", "w+")

    def TextIOWrapper(buffer, encoding=None, *a, **k):
        if isinstance(buffer, SymTBIO):
            enc = P.norm_enc(encoding or world.env.locale)
            t = P.check_decode(SymIO.getvalue(buffer), buffer.enc, enc)
            r = SymIO("" if t is None else t, buffer.name, "r")
            r._bad = t is None
            r.encoding = enc
            return r
        return _io.TextIOWrapper(buffer, encoding, *a, **k)
    return _clone_of(_io, StringIO=StringIO, open=world._open, BytesIO=BytesIO, TextIOWrapper=TextIOWrapper)


def mk_copy(world):
    def deepcopy(x, memo=None):
        if isinstance(x, (P.SymDict,)):
            r = x.copy()
            r._v = [deepcopy(v) for v in x._v]
            return r
        return _copy.deepcopy(x, memo)
    return _clone_of(_copy, deepcopy=deepcopy)


def mk_re(world):
    # symbolic text is matched by symx.symre, other text by the real module
    return _clone_of(_re, compile=symre.compile, escape=symre.escape, **symre.functions())


def mk_math(world):
    def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        if not (P.is_sym(a) or P.is_sym(b)):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        return abs(a - b) <= 0 or abs(a - b) <= rel_tol * max(abs(a), abs(b)) or abs(a - b) <= abs_tol

    def fsum(it):
        r = 0.0
        for x in it:
            r = r + x
        return r

    def floor(x): return x.__floor__() if P.is_sym(x) else _math.floor(x)
    def ceil(x): return x.__ceil__() if P.is_sym(x) else _math.ceil(x)
    def trunc(x): return x.__trunc__() if P.is_sym(x) else _math.trunc(x)
    def fabs(x): return abs(P.sym_float(x)) if P.is_sym(x) else _math.fabs(x)
    def isnan(x): return False if P.is_sym(x) else _math.isnan(x)
    def isfinite(x): return True if P.is_sym(x) else _math.isfinite(x)

    def prod(it, start=1):
        for x in it:
            start = start * x
        return start
    return _clone_of(_math, isclose=isclose, fsum=fsum, floor=floor, ceil=ceil, trunc=trunc, fabs=fabs,
                     isnan=isnan, isfinite=isfinite, isinf=isnan, prod=prod)


# ------------------------------------------------------------------ logging / sys / os ...
def mk_logging(world):
    class Logger(object):
        handlers = []
        level = 0

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            if n == "isEnabledFor":
                return lambda *a: False
            return lambda *a, **k: None
    lg = Logger()

    def getLogger(*a):
        return lg
    m = _mod("logging", getLogger=getLogger, DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50,
             _srcfile="logging", Logger=Logger, root=lg)
    for n in ("debug", "info", "warning", "warn", "error", "critical", "fatal", "exception", "log",
              "basicConfig", "disable", "captureWarnings"):
        setattr(m, n, lambda *a, **k: None)
    m.NullHandler = m.StreamHandler = lambda *a, **k: None
    return m


class SymExit(Exception):
    """sys.exit() during symbolic execution."""
    def __init__(self, code=None):
        Exception.__init__(self, "exit %r" % (code,))
        self.code = code


def mk_sys(world):
    m = _clone_of(_sys)
    m.stdout = world.env.stdout
    m.stderr = world.env.stderr
    m.argv = world.env.argv

    def exit(code=None):
        raise SystemExit(code)
    m.exit = exit
    return m


def mk_os(world):
    env = world.env
    path = _clone_of(_os.path, "os.path",
                     exists=lambda p: env.exists(p),
                     isfile=lambda p: env.isfile(p),
                     lexists=lambda p: env.exists(p),
                     isdir=lambda p: env.isdir(p),
                     islink=lambda p: False,
                     abspath=lambda p: p if isinstance(p, P.SymStr) else absp(p),
                     realpath=lambda p: p if isinstance(p, P.SymStr) else env._key(p))

    def absp(p):
        p = env._key(p)
        return p if p.startswith("/") else "/virt/" + p

    def nope(*a, **k):
        raise Unsupported("os file operation")
    def access(p, mode, *a, **k):
        return env.exists(p)

    def fdopen(fd, mode="r", *a, **k):
        if not isinstance(fd, FD):
            raise Unsupported("os.fdopen")
        return env.open(fd.path, mode, *a, **k)

    def close(fd):
        if not isinstance(fd, FD):
            raise Unsupported("os.close")
    m = _clone_of(_os, path=path, remove=env.remove, unlink=env.remove, rename=env.replace, replace=env.replace,
                  makedirs=env.makedirs, mkdir=env.mkdir, listdir=env.listdir, access=access, fdopen=fdopen,
                  close=close)
    for n in ("rmdir", "stat", "lstat", "scandir", "walk", "write", "read", "fsync", "utime", "system", "popen", "chmod", "open", "removedirs",
              "symlink", "link", "truncate", "kill", "execv", "fork", "chdir"):
        setattr(m, n, nope)
    return m


def mk_shutil(world):
    def nope(*a, **k):
        raise Unsupported("shutil operation")
    env = world.env

    def copyfileobj(a, b, *x):
        b.write(a.read())

    def move(a, b, *x):
        env.replace(a, b)
        return b
    return _mod("shutil", rmtree=nope, copy=env.copy, copyfile=env.copy, copy2=env.copy, move=move,
                copyfileobj=copyfileobj, copytree=nope)


class FD(object):
    """a file descriptor of mkstemp"""
    def __init__(self, path):
        self.path = path


def mk_tempfile(world):
    env = world.env

    def mkstemp(suffix=None, prefix=None, dir=None, text=False):
        p = env.temp(suffix, prefix, dir)
        env.open(p, "w").close()
        return FD(p), p

    def named(mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True,
              **k):
        if delete:
            raise Unsupported("temporary file")
        return env.open(env.temp(suffix, prefix, dir), mode, encoding=encoding)

    def nope(*a, **k):
        raise Unsupported("temporary file")
    return _mod("tempfile", mkstemp=mkstemp, NamedTemporaryFile=named, TemporaryFile=nope, mkdtemp=nope,
                TemporaryDirectory=nope, SpooledTemporaryFile=nope, gettempdir=lambda: "/virt", mktemp=env.temp)


def mk_pathlib(world):
    """Path over the virtual file system; the purely textual operations are the standard library's own."""
    import pathlib as _pl
    env = world.env

    def arg(x):
        return x.realise("file name") if isinstance(x, P.SymStr) else x

    class Path(_pl.PurePosixPath):
        __slots__ = ()

        def __init__(self, *a):
            super().__init__(*[arg(x) for x in a])

        def __truediv__(self, o):
            return super().__truediv__(arg(o))

        def __rtruediv__(self, o):
            return super().__rtruediv__(arg(o))

        def joinpath(self, *a):
            return super().joinpath(*[arg(x) for x in a])

        def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
            return env.open(str(self), mode, encoding=encoding)

        def read_text(self, encoding=None, errors=None):
            with self.open("r", encoding=encoding) as f:
                return f.read()

        def write_text(self, data, encoding=None, errors=None, newline=None):
            with self.open("w", encoding=encoding) as f:
                return f.write(data)

        def read_bytes(self):
            with self.open("rb") as f:
                return f.read()

        def write_bytes(self, data):
            with self.open("wb") as f:
                return f.write(data)

        def exists(self, **k):
            return env.exists(str(self))

        def is_file(self):
            return env.isfile(str(self))

        def is_dir(self):
            return env.isdir(str(self))

        def is_symlink(self):
            return False

        def unlink(self, missing_ok=False):
            if not (missing_ok and not self.exists()):
                env.remove(str(self))

        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            if exist_ok and self.is_dir():
                return
            (env.makedirs if parents else env.mkdir)(str(self))

        def rename(self, target):
            env.replace(str(self), target)
            return Path(target)
        replace = rename

        def touch(self, mode=0o666, exist_ok=True):
            if self.exists() and not exist_ok:
                raise FileExistsError(17, "File exists", str(self))
            env.open(str(self), "a").close()

        def iterdir(self):
            return iter([self / n for n in env.listdir(str(self))])

        def absolute(self):
            return self if self.is_absolute() else Path("/virt", self)

        def resolve(self, strict=False):
            if strict and not self.exists():
                raise FileNotFoundError(2, "No such file or directory", str(self))
            return self.absolute()

        def expanduser(self):
            if str(self).startswith("~"):
                raise Unsupported("expanduser")
            return self

        def samefile(self, o):
            return self.resolve() == Path(o).resolve()

        @classmethod
        def cwd(cls):
            return cls("/virt")

        def _nope(self, *a, **k):
            raise Unsupported("pathlib file operation")
        stat = lstat = chmod = glob = rglob = rmdir = walk = owner = group = symlink_to = hardlink_to = readlink = _nope

    return _mod("pathlib", Path=Path, PosixPath=Path, PurePath=_pl.PurePath, PurePosixPath=_pl.PurePosixPath,
                PureWindowsPath=_pl.PureWindowsPath)


def mk_glob(world):
    import glob as g
    return _mod("glob", glob=world.env.glob, iglob=lambda *a, **k: iter(world.env.glob(*a, **k)), escape=g.escape,
                has_magic=g.has_magic)


def mk_getpass(world):
    return _mod("getpass", getuser=lambda: "user", getpass=lambda *a: "")


def mk_traceback(world):
    import traceback as tb
    return _clone_of(tb, print_exc=lambda *a, **k: None, print_stack=lambda *a, **k: None,
                     format_exc=lambda *a, **k: "")


# ------------------------------------------------------------------ time
_DIR = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2}
_RNG = {"Y": (1, 9999), "m": (1, 12), "d": (1, 31), "H": (0, 23), "M": (0, 59), "S": (0, 61)}


class DT(object):
    """A calendar instant with (possibly symbolic) digit characters per field."""
    def __init__(self, **f):
        self.f = f

    def _v(self, k):
        r = z3.IntVal(0)
        for c in self.f[k]:
            r = r * 10 + (P._ord(c) - 48)
        return P.mkint(r)

    year = property(lambda s: s._v("Y"))
    month = property(lambda s: s._v("m"))
    day = property(lambda s: s._v("d"))
    hour = property(lambda s: s._v("H"))
    minute = property(lambda s: s._v("M"))
    second = property(lambda s: s._v("S"))
    microsecond = 0
    tzinfo = None

    @staticmethod
    def strptime(val, fmt):
        if not isinstance(val, (str, P.SymStr)):
            raise TypeError("strptime() argument 1 must be str, not %s" % type(val).__name__)
        cs = val.chars() if isinstance(val, P.SymStr) else list(val)
        f = {"Y": list("1900"), "m": list("01"), "d": list("01"), "H": list("00"), "M": list("00"), "S": list("00")}
        i = j = 0
        bad = ValueError("time data does not match format %r" % fmt)
        while i < len(fmt):
            if fmt[i] == "%":
                k = fmt[i + 1]
                if k not in _DIR:
                    raise Unsupported("strptime %%%s" % k)
                n = _DIR[k]
                seg = cs[j:j + n]
                if len(seg) < n:
                    raise bad
                for c in seg:
                    o = P._ord(c)
                    cond = z3.And(o >= 48, o <= 57)
                    if not E.CUR.branch(cond):
                        raise bad
                f[k] = seg
                lo, hi = _RNG[k]
                v = z3.IntVal(0)
                for c in seg:
                    v = v * 10 + (P._ord(c) - 48)
                if not E.CUR.branch(z3.And(v >= lo, v <= hi)):
                    raise bad
                i += 2
                j += n
            else:
                if j >= len(cs) or not E.CUR.branch(P._ord(cs[j]) == ord(fmt[i])):
                    raise bad
                i += 1
                j += 1
        if j != len(cs):
            raise ValueError("unconverted data remains")
        if "%d" in fmt:
            num = lambda k: z3.Sum([P._ord(c) - 48 for c in f[k][:-1]] + [0]) * 10 + P._ord(f[k][-1]) - 48
            y = z3.IntVal(0)
            for c in f["Y"]:
                y = y * 10 + (P._ord(c) - 48)
            m, d = num("m"), num("d")
            leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
            ok = z3.And(z3.Implies(z3.Or([m == k for k in (4, 6, 9, 11)]), d <= 30),
                        z3.Implies(m == 2, z3.Or(d <= 28, z3.And(d == 29, leap))))
            if not E.CUR.branch(z3.simplify(ok)):
                raise ValueError("day is out of range for month")
        return DT(**f)

    def strftime(self, fmt):
        out = []
        i = 0
        while i < len(fmt):
            if fmt[i] == "%":
                k = fmt[i + 1]
                if k == "T":
                    fmt = fmt[:i] + "%H:%M:%S" + fmt[i + 2:]
                    continue
                if k == "F":
                    fmt = fmt[:i] + "%Y-%m-%d" + fmt[i + 2:]
                    continue
                if k not in self.f:
                    raise Unsupported("strftime %%%s" % k)
                out.extend(self.f[k])
                i += 2
            else:
                out.append(fmt[i])
                i += 1
        return P.mkstr(out)

    def isoformat(self, sep="T", timespec="auto"):
        return self.strftime("%Y-%m-%d" + sep + "%H:%M:%S")

    def timetuple(self):
        return DT(**self.f)

    def timestamp(self):
        return _ts(self)

    def __int__(self):
        raise Unsupported("integer of a symbolic date")
    __float__ = __int__

    def replace(self, **k):
        if set(k) - {"microsecond", "tzinfo"}:
            raise Unsupported("datetime.replace")
        return self

    @staticmethod
    def fromtimestamp(v, tz=None):
        if isinstance(v, DT):
            return DT(**v.f)
        import datetime as d
        return _dt_of(d.datetime.utcfromtimestamp(v))

    @staticmethod
    def fromisoformat(v):
        return DT.strptime(v, "%Y-%m-%dT%H:%M:%S")

    @staticmethod
    def now(tz=None):
        return DT(Y=list("2024"), m=list("03"), d=list("05"), H=list("07"), M=list("11"), S=list("13"))

    utcnow = now
    today = now

    def __str__(self):
        return self.isoformat(" ")

    _symx_str = __str__

    def _symx_format(self, spec):
        return self.strftime(spec) if spec else self._symx_str()

    def __eq__(self, o):
        if not isinstance(o, DT):
            return False
        return self.isoformat() == o.isoformat()


def _dt_of(d):
    return DT(Y=list("%04d" % d.year), m=list("%02d" % d.month), d=list("%02d" % d.day),
              H=list("%02d" % d.hour), M=list("%02d" % d.minute), S=list("%02d" % d.second))


class TS(float):
    """Seconds since the epoch of a concrete instant (remembers the instant)."""
    dt = None


def _ts(d):
    from . import loader
    if loader.WORLD.env.dst:
        num = lambda k: z3.Sum([P._ord(c) - 48 for c in d.f[k][:-1]] + [0]) * 10 + P._ord(d.f[k][-1]) - 48
        c = z3.simplify(z3.And(num("m") == 3, num("d") == 1, num("H") == 2))
        if E.CUR.branch(c):
            d = DT(**dict(d.f, H=list("03")))
    if all(isinstance(c, str) for k in d.f for c in d.f[k]):
        import calendar
        g = lambda k: int("".join(d.f[k]))
        t = TS(calendar.timegm((g("Y"), g("m"), g("d"), g("H"), g("M"), g("S"))))
        t.dt = d
        return t
    return DT(**d.f)


class Date(DT):
    @staticmethod
    def today():
        return DT(Y=list("2024"), m=list("03"), d=list("05"), H=list("00"), M=list("00"), S=list("00"))


def mk_datetime(world):
    import datetime as d
    return _mod("datetime", datetime=DT, date=Date, timedelta=d.timedelta, timezone=d.timezone, time=d.time)


def mk_time(world):
    import time as t

    def mktime(x):
        if isinstance(x, DT):
            return _ts(x)
        return t.mktime(x)
    return _mod("time", mktime=mktime, time=lambda: 1700000000.0, strftime=lambda f, *a: DT.now().strftime(f),
                strptime=DT.strptime, localtime=lambda *a: DT.now(), gmtime=lambda *a: DT.now(),
                perf_counter=lambda: 0.0, monotonic=lambda: 0.0, sleep=lambda *a: None,
                process_time=lambda: 0.0)


# ------------------------------------------------------------------ compression
def _opener(world, comp, magic):
    def open_(path, mode="rb", *a, **k):
        f = world.env.files.get(world.env._key(path))
        if f is None:
            raise FileNotFoundError(2, "No such file: %s" % path)
        if f.comp != comp:
            raise OSError("Not a %s file" % comp)
        if "t" in mode:
            t = P.check_decode(f.text, f.enc, k.get("encoding"))
            io = SymIO("" if t is None else t, path, "r")
            io._bad = f.fault or t is None
            return io
        io = SymTBIO(f.text, path, "r", enc=f.enc)
        io._bad = f.fault
        return io
    return open_


def mk_gzip(world):
    import gzip
    return _mod("gzip", open=_opener(world, "gzip", b"\x1f\x8b"), BadGzipFile=gzip.BadGzipFile)


def mk_lz4(world):
    fr = _mod("lz4.frame", open=_opener(world, "lz4", b"\x04\x22\x4d\x18"))
    return _mod("lz4", frame=fr)


def mk_lxml(world):
    et = fake_lxml.make(world)
    return _mod("lxml", etree=et)


def mk_ctypes(world):
    import ctypes
    return ctypes


def mk_functools(world):
    import functools as _ft

    def cache(fn):
        memo = P.SymDict()

        @_ft.wraps(fn)
        def g(*a, **k):
            key = (tuple(a), tuple(sorted(k.items())))
            if key in memo:
                return memo[key]
            r = memo[key] = fn(*a, **k)
            return r
        g.cache_clear = memo.clear
        return g

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize):
            return cache(maxsize)
        return cache
    return _clone_of(_ft, cache=cache, lru_cache=lru_cache)


STUBS = {
    "functools": mk_functools,
    "json": mk_json, "yaml": mk_yaml, "jsonschema": mk_jsonschema, "python_jsonschema_objects": mk_pjs,
    "collections": mk_collections, "io": mk_io, "copy": mk_copy, "re": mk_re, "math": mk_math,
    "logging": mk_logging, "sys": mk_sys, "os": mk_os, "shutil": mk_shutil, "getpass": mk_getpass,
    "traceback": mk_traceback, "datetime": mk_datetime, "_datetime": mk_datetime, "time": mk_time,
    "tempfile": mk_tempfile, "glob": mk_glob, "pathlib": mk_pathlib,
    "gzip": mk_gzip, "lz4": mk_lz4, "lxml": mk_lxml,
}
