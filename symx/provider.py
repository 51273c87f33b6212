"""Input providers: the same harness runs symbolically (Sym) and concretely (Conc)."""
import json
from fractions import Fraction

import z3
from . import engine as E
from . import proxies as P
from . import vfs


class Sym(object):
    symbolic = True

    def __init__(self, eng, env):
        self.e = eng
        self.env = env

    # ---- inputs
    def int(self, tag, lo=None, hi=None):
        if lo is not None and hi is not None and lo == hi:
            return lo
        v = z3.Int("i_" + tag)
        if lo is not None:
            self.e.add(v >= lo)
        if hi is not None:
            self.e.add(v <= hi)
        self.e.register_input(tag, lambda m: m.eval(v, model_completion=True).as_long())
        self.e.ivars.append(v)
        return P.SymInt(v)

    def bool(self, tag):
        v = z3.Bool("b_" + tag)
        self.e.register_input(tag, lambda m: z3.is_true(m.eval(v, model_completion=True)))
        return P.SymBool(v)

    def flag(self, tag):
        """A boolean decided immediately (forks)."""
        return True if self.bool(tag) else False

    def real(self, tag, lo=None, hi=None, den=8):
        """A dyadic rational num/den (exactly representable as a float)."""
        n = z3.Int("r_" + tag)
        if lo is not None:
            self.e.add(n >= lo * den)
        if hi is not None:
            self.e.add(n <= hi * den)
        self.e.register_input(tag, lambda m: m.eval(n, model_completion=True).as_long())
        self.e.ivars.append(n)
        return P.SymReal(z3.ToReal(n) / z3.RealVal(den))

    def name(self, tag, n=1, prefix="", suffix="", lo=33, hi=126, alphabet=None):
        cs = [z3.Int("c_%s_%d" % (tag, i)) for i in range(n)]
        self.e.cvars.extend(cs)
        for c in cs:
            if alphabet is not None:
                self.e.add(z3.Or([c == ord(a) for a in alphabet]))
            else:
                self.e.add(c >= lo)
                self.e.add(c <= hi)
        self.e.register_input(tag, lambda m: prefix + "".join(
            chr(m.eval(c, model_completion=True).as_long()) for c in cs) + suffix)
        return P.mkstr([prefix] + cs + [suffix])

    def digits(self, tag, n):
        return self.name(tag, n, lo=48, hi=57)

    def choice(self, tag, options):
        if len(options) == 1:
            return options[0]
        v = z3.Int("k_" + tag)
        self.e.add(z3.And(v >= 0, v < len(options)))
        self.e.register_input(tag, lambda m: m.eval(v, model_completion=True).as_long())
        return options[self.e.enumerate_int(v)]

    def mask(self, tag, bits=64):
        v = z3.BitVec("m_" + tag, 64)
        if bits < 64:
            self.e.add(z3.ULT(v, z3.BitVecVal(1 << bits, 64)))
        self.e.register_input(tag, lambda m: m.eval(v, model_completion=True).as_long())
        return P.SymInt(None, v)

    def onebit(self, tag, bits=48):
        """a power of two below 2**bits"""
        v = z3.BitVec("m_" + tag, 64)
        self.e.add(v != 0)
        self.e.add((v & (v - 1)) == 0)
        self.e.add(z3.ULT(v, z3.BitVecVal(1 << bits, 64)))
        self.e.register_input(tag, lambda m: m.eval(v, model_completion=True).as_long())
        return P.SymInt(None, v)

    def bytes(self, tag, n):
        cs = [z3.Int("y_%s_%d" % (tag, i)) for i in range(n)]
        for c in cs:
            self.e.add(z3.And(c >= 0, c <= 255))
        self.e.register_input(tag, lambda m: [m.eval(c, model_completion=True).as_long() for c in cs])
        return vfs.SymBytes([P.SymInt(c) for c in cs])

    # ---- logic
    def assume(self, c):
        self.e.assume(P.zbool(c))

    def check(self, c, msg):
        if c is NotImplemented:
            c = False
        self.e.oblige(P.zbool(c) if isinstance(c, (P.SymBool, bool)) else z3.BoolVal(bool(c)), msg)

    def fail(self, msg):
        self.e.oblige(z3.BoolVal(False), msg)

    def observe(self, tag, v):
        self.e.observed.append((tag, v))

    def ite(self, c, a, b):
        return P.sym_ite(c, a, b)

    def wsum(self, pairs):
        """Sum of the values whose condition holds (no forking)."""
        c = 0
        zs = []
        for cond, v in pairs:
            if cond is False:
                continue
            if cond is True and type(v) is int:
                c += v
            elif cond is True:
                zs.append(P.zint(v))
            else:
                zs.append(z3.If(P.zbool(cond), P.zint(v), z3.IntVal(0)))
        if not zs:
            return c
        if c:
            zs.append(z3.IntVal(c))
        return P.SymInt(z3.Sum(zs) if len(zs) > 1 else zs[0])

    def one(self, conds):
        """Exactly one condition holds."""
        n = 0
        zs = []
        for c in conds:
            if c is True:
                n += 1
            elif c is not False:
                zs.append(P.zbool(c))
        if n > 1:
            return False
        if not zs:
            return n == 1
        if n == 1:
            return P.SymBool(z3.Not(z3.Or(zs)))
        if len(zs) == 1:
            return P.SymBool(zs[0])
        return P.SymBool(z3.And(z3.AtMost(*zs, 1), z3.Or(zs)))

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        r = P.sym_eq(a, b)
        if r is NotImplemented:
            return a is b
        return r

    def and_(self, *cs):
        zs = []
        for c in cs:
            if c is True:
                continue
            if c is False:
                return False
            zs.append(P.zbool(c))
        if not zs:
            return True
        return P.SymBool(zs[0] if len(zs) == 1 else z3.And(zs))

    def or_(self, *cs):
        zs = []
        for c in cs:
            if c is False:
                continue
            if c is True:
                return True
            zs.append(P.zbool(c))
        if not zs:
            return False
        return P.SymBool(zs[0] if len(zs) == 1 else z3.Or(zs))

    def not_(self, c):
        return P.sym_not(c)

    def all(self, it):
        return self.and_(*list(it))

    def any(self, it):
        return self.or_(*list(it))

    def implies(self, a, b):
        return P.sym_or(P.sym_not(a), b)

    def close(self, a, b, tol=1e-9):
        d = a - b
        return P.sym_and(d <= tol, d >= -tol)

    def div(self, a, b):
        """exact quotient, b known non-zero"""
        return P.mkreal(P.zreal(a) / P.zreal(b))

    def ratio(self, a, b):
        """a / b, or 0 when b is 0"""
        return P.mkreal(z3.If(P.zreal(b) == 0, z3.RealVal(0), P.zreal(a) / P.zreal(b)))

    def truth(self, c):
        return True if c else False

    def is_str(self, x):
        return isinstance(x, (str, P.SymStr))

    def is_int(self, x):
        return isinstance(x, (int, P.SymInt)) and not isinstance(x, (bool, P.SymBool))

    def is_num(self, x):
        return isinstance(x, (int, float, P.SymInt, P.SymReal))

    # ---- environment
    def write_text(self, path, text, enc="utf-8"):
        self.env.files[path] = vfs.VFile(text, enc=enc)

    def write_compressed(self, path, text, comp, head, enc="utf-8"):
        if comp == "gzip2":         # all members are read as one
            comp = "gzip"
        self.env.files[path] = vfs.VFile(text, head, comp, enc)

    def write_damaged(self, path, text, how):
        """a gzip file whose header, data or checksum is wrong, or whose end is missing"""
        import gzip
        import zlib
        f = vfs.VFile(text, b"\x1f\x8b\x08\0\0\0\0\0\0\x03", "gzip")
        if how == "header":
            f.head = b"\x1f\x8b\0\0garbage"
        f.fault = {"header": gzip.BadGzipFile("Unknown compression method"), "crc": gzip.BadGzipFile("CRC check failed"),
                   "cut": EOFError("Compressed file ended before the end-of-stream marker was reached"),
                   "data": zlib.error("Error -3 while decompressing data")}[how]
        self.env.files[path] = f

    def locale(self, enc):
        """encoding of text files that are opened without naming one"""
        self.env.locale = enc

    def dst(self):
        """a time zone where clocks skip from 2 to 3 o'clock on March 1st"""
        self.env.dst = True

    def read_text(self, path):
        return self.env.files[path].text

    def file_exists(self, path):
        return path in self.env.files

    def path(self, name):
        return "/virt/" + name

    def mkdir(self, path):
        self.env.mkdir(path)

    def stream(self, text=""):
        return vfs.SymIO(text, "<stream>", "w+")

    def text_of(self, stream):
        return stream.getvalue()

    def lines(self, text):
        """Lines of a text, each ended by a newline (literal newlines only)."""
        out = [[]]
        for g in P.segs_of(text):
            if isinstance(g, str):
                ps = g.split("\n")
                out[-1].append(ps[0])
                for x in ps[1:]:
                    out.append([x])
            else:
                out[-1].append(g)
        r = [P.mkstr(x) for x in out]
        if isinstance(r[-1], str) and r[-1] == "":
            r.pop()
        return r

    def starts(self, text, head):
        a, b = P.segs_of(text), P.segs_of(head)
        n = len(P._fixed(b))
        pre, _ = self._cut(a, n)
        if pre is None:
            return False
        return P.mkbool(P._str_eq_z(pre, b))

    def _cut(self, segs, n):
        pre, rest = [], []
        for g in segs:
            if n == 0:
                rest.append(g)
            elif isinstance(g, str):
                pre.append(g[:n])
                if g[n:]:
                    rest.append(g[n:])
                n -= min(n, len(g))
            elif isinstance(g, z3.ExprRef):
                pre.append(g)
                n -= 1
            else:
                return None, None
        return (pre, rest) if n == 0 else (None, None)

    def pct(self, text, head):
        """the number between head and a final '%' (None if malformed)"""
        _, rest = self._cut(P.segs_of(text), len(P._fixed(P.segs_of(head))))
        r = P.mkstr(rest)
        if isinstance(r, str):
            if not r.endswith("%"):
                return None
            try:
                return float(r[:-1])
            except ValueError:
                return None
        if len(r.segs) == 2 and r.segs[1] == "%" and isinstance(r.segs[0], (P.Flt, P.Num)):
            return P.sym_float(P.mkstr([r.segs[0]]))
        raise E.Unsupported("percentage text")

    def places(self, text, head):
        """how many digits follow the decimal point in the number between head and a final '%'"""
        _, rest = self._cut(P.segs_of(text), len(P._fixed(P.segs_of(head))))
        r = P.mkstr(rest)
        if isinstance(r, str):
            return len(r[:-1].partition(".")[2])
        g = r.segs[0]
        if isinstance(g, P.Num):
            return 0
        if isinstance(g, P.Flt) and g.spec[:1] == "." and g.spec[-1:] == "f" and g.spec[1:-1].isdigit():
            return int(g.spec[1:-1])
        if isinstance(g, P.Flt) and g.spec == "f":
            return 6
        raise E.Unsupported("percentage text")

    def stdout(self):
        return self.env.stdout

    def stdout_text(self):
        return P.str_join("", [self.env.stdout.getvalue()] + self.env.printed)

    def printed_text(self):
        return P.str_join("", self.env.printed)

    def yaml_text(self, doc):
        from . import stubs
        return P.mkstr([P.Opq("yaml", stubs.doc_in(doc, {}))])

    def json_of(self, text):
        """Parse JSON text into lists / mappings."""
        from . import stubs
        return stubs.mk_json(None).loads(text)

    def same_json(self, a, b):
        return P.sym_eq(self._plain(self.json_of(a)), self._plain(self.json_of(b)))

    def _plain(self, d):
        if isinstance(d, P.SymDict) or isinstance(d, dict):
            return [[k, self._plain(v)] for k, v in d.items()]
        if isinstance(d, (list, tuple)):
            return [self._plain(x) for x in d]
        return d

    def xml_of(self, text):
        """Parse XML text into an element tree."""
        from . import fake_lxml
        return fake_lxml._parse_text(text)

    def xml_text(self, el):
        from . import fake_lxml
        return fake_lxml.tounicode(el)

    def xml_elem(self, tag, attrs=(), text=None, kids=()):
        from . import fake_lxml
        e = fake_lxml.Element(tag)
        for k, v in attrs:
            e.set(k, v)
        e.text = text
        for k in kids:
            e.append(k)
        return e

    def xml_comment(self, text):
        from . import fake_lxml
        return fake_lxml.Comment(text)

    def xml_pi(self, target, text):
        from . import fake_lxml
        return fake_lxml.ProcessingInstruction(target, text)

    def num(self, v):
        """decimal text of an integer"""
        return P.sym_str(v)

    def main(self, argv):
        """Run the command line entry point; returns (exit status, exception-name)."""
        from . import loader
        w = loader.WORLD
        self.env.argv[:] = ["ucis"] + list(argv)
        m = w.load("ucis.__main__")
        w._stub("sys").argv = self.env.argv
        try:
            r = m.main()
            if isinstance(r, int):
                return int(r) & 255
        except SystemExit as e:
            c = e.code
            return 0 if c is None else c & 255 if isinstance(c, int) else 1
        except E.Control:
            raise
        except Exception:
            return 1
        return 0

    def schema_errors(self, text):
        """None when the text is a schema-valid UCIS XML document (independent validator)."""
        from . import fake_lxml
        import os
        xsd = os.path.join(self.env.src, "ucis/xml/schema/ucis.xsd")
        with open(xsd) as fp:
            sch = fake_lxml.XMLSchema(fake_lxml.ElementTree_(fake_lxml._parse_text(fp.read())))
        root = fake_lxml._parse_text(text)
        for e in root.iter("*"):
            i = e._t.rfind("}")
            e._t = e._t[i + 1:]
        return sch._run(root)


class Violation(Exception):
    pass


class AssumeFailed(Exception):
    pass


def _need_lz4():
    """Where the lz4 module is not installed, a stand-in with the same interface (magic number + raw data)."""
    try:
        import lz4.frame
        return hasattr(lz4.frame, "__standin__")
    except ImportError:
        pass
    import io
    import sys
    import types

    def open_(path, mode="rb", **k):
        if "w" in mode:
            fp = open(path, "wb")
            fp.write(b"\x04\x22\x4d\x18\x60\x40")
            return io.TextIOWrapper(fp, "utf-8") if "t" in mode else fp
        with open(path, "rb") as fp:
            data = fp.read()
        if data[:4] != b"\x04\x22\x4d\x18":
            raise RuntimeError("LZ4F_decompress failed")
        b = io.BytesIO(data[6:])
        return io.TextIOWrapper(b, "utf-8") if "t" in mode else b
    m = types.ModuleType("lz4")
    f = types.ModuleType("lz4.frame")
    f.open = open_
    f.LZ4FrameFile = open_
    m.frame = f
    sys.modules["lz4"] = m
    sys.modules["lz4.frame"] = f
    f.__standin__ = True
    return True


class Conc(object):
    """Concrete provider; runs with the real code and the real libraries."""
    symbolic = False

    def __init__(self, inputs, scratch, src="/repo/src"):
        self.inp = inputs
        self.scratch = scratch
        self.failures = []
        self.observed = []
        self.src = src
        self._so = None
        self._open = None
        self._tz = 0

    def _get(self, tag, default):
        return self.inp.get(tag, default)

    def int(self, tag, lo=None, hi=None):
        if lo is not None and hi is not None and lo == hi:
            return lo
        return self._get(tag, lo if lo is not None else (hi if hi is not None else 0))

    def bool(self, tag):
        return bool(self._get(tag, False))

    flag = bool

    def real(self, tag, lo=None, hi=None, den=8):
        return self._get(tag, (lo or 0) * den) / float(den)

    def name(self, tag, n=1, prefix="", suffix="", lo=33, hi=126, alphabet=None):
        return self._get(tag, prefix + (alphabet[0] if alphabet else chr(lo)) * n + suffix)

    def digits(self, tag, n):
        return self.name(tag, n, lo=48, hi=57)

    def choice(self, tag, options):
        if len(options) == 1:
            return options[0]
        return options[self._get(tag, 0)]

    def mask(self, tag, bits=64):
        return self._get(tag, 0)

    def onebit(self, tag, bits=48):
        return self._get(tag, 1)

    def bytes(self, tag, n):
        return bytes(self._get(tag, [0] * n))

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, msg):
        if c is NotImplemented or not c:
            self.failures.append(msg)

    def fail(self, msg):
        self.failures.append(msg)

    def observe(self, tag, v):
        self.observed.append((tag, v))

    def ite(self, c, a, b): return a if c else b

    def wsum(self, pairs):
        t = 0
        for c, v in pairs:
            if c:
                t = t + v
        return t

    def one(self, conds):
        return len([1 for c in conds if c]) == 1

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return bool(a == b)

    def and_(self, *cs): return all(cs)
    def or_(self, *cs): return any(cs)
    def not_(self, c): return not c
    def all(self, it): return all(list(it))
    def any(self, it): return any(list(it))
    def implies(self, a, b): return (not a) or bool(b)
    def close(self, a, b, tol=1e-9): return abs(a - b) <= tol
    def div(self, a, b): return a / b
    def ratio(self, a, b): return a / b if b else 0
    def truth(self, c): return bool(c)
    def is_str(self, x): return isinstance(x, str)

    def is_int(self, x):
        import numbers
        if hasattr(x, "_value"):
            x = x._value
        return isinstance(x, int) and not isinstance(x, bool)

    def is_num(self, x):
        return isinstance(x, (int, float))

    def path(self, name):
        import os
        return os.path.join(self.scratch, name)

    def mkdir(self, path):
        import os
        os.mkdir(path)

    def locale(self, enc):
        import builtins

        def open_(file, mode="r", buffering=-1, encoding=None, *a, **k):
            if "b" not in mode and encoding is None and not isinstance(file, int):
                encoding = enc
            return self._open(file, mode, buffering, encoding, *a, **k)
        self._open = builtins.open
        builtins.open = open_

    def dst(self):
        import os
        import time
        self._tz = os.environ.get("TZ")
        os.environ["TZ"] = "AAA0BBB,J60/2,J300/2"
        time.tzset()

    def finish(self):
        if self._tz != 0:
            import os
            import time
            os.environ.pop("TZ", None)
            if self._tz is not None:
                os.environ["TZ"] = self._tz
            time.tzset()
            self._tz = 0
        if self._open is not None:
            import builtins
            builtins.open = self._open
            self._open = None

    def write_text(self, path, text, enc="utf-8"):
        with open(path, "w", encoding=enc) as fp:
            fp.write(text)

    def write_compressed(self, path, text, comp, head, enc="utf-8"):
        if comp == "gzip":
            self._gzip(path, text.encode(enc), bytes(head))
        elif comp == "gzip2":
            # several members, then padding
            data = text.encode(enc)
            k = len(data) // 2
            out = b""
            for d in (data[:k], b"", data[k:]):
                self._gzip(path, d, bytes(head))
                with open(path, "rb") as fp:
                    out += fp.read()
            with open(path, "wb") as fp:
                fp.write(out + bytes(5))
        elif comp == "lz4":
            if _need_lz4():
                with open(path, "wb") as fp:
                    fp.write(bytes(head) + text.encode(enc))
                return
            import lz4.frame
            with lz4.frame.open(path, "wb") as fp:
                fp.write(text.encode(enc))
        else:
            self.write_text(path, text, enc)

    def write_damaged(self, path, text, how):
        import zlib
        head = b"\x1f\x8b\x08\0\0\0\0\0\0\x03"
        if how == "header":
            data = b"\x1f\x8b\0\0garbage"
        elif how == "data":
            data = head + b"\xff" * 40
        else:
            self._gzip(path, text.encode("utf-8"), head)
            with open(path, "rb") as fp:
                data = fp.read()
            data = data[:-8] + bytes(4) + data[-4:] if how == "crc" else data[:-20]
        with open(path, "wb") as fp:
            fp.write(data)

    def _gzip(self, path, data, head):
        """A gzip member with the given 10-byte header, and the optional fields its flags announce."""
        import struct
        import zlib
        flg = head[3]
        if flg & 4:
            head += struct.pack("<H", 4) + b"AB\0\0"
        if flg & 8:
            head += b"a.xml\0"
        if flg & 16:
            head += b"comment\0"
        if flg & 2:
            head += struct.pack("<H", zlib.crc32(head) & 0xffff)
        c = zlib.compressobj(6, zlib.DEFLATED, -15)
        body = c.compress(data) + c.flush()
        with open(path, "wb") as fp:
            fp.write(head + body + struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff))

    def read_text(self, path):
        with open(path, encoding="utf-8") as fp:
            return fp.read()

    def file_exists(self, path):
        import os
        return os.path.exists(path)

    def stream(self, text=""):
        import io
        s = io.StringIO()
        s.write(text)
        s.seek(0)
        return s

    def text_of(self, stream):
        return stream.getvalue()

    def lines(self, text):
        r = text.split("\n")
        if r[-1] == "":
            r.pop()
        return r

    def starts(self, text, head):
        return text.startswith(head)

    def pct(self, text, head):
        r = text[len(head):]
        if not r.endswith("%"):
            return None
        try:
            return float(r[:-1])
        except ValueError:
            return None

    def places(self, text, head):
        return len(text[len(head):-1].partition(".")[2])

    def stdout(self):
        import sys
        return sys.stdout

    def stdout_text(self):
        import sys
        return sys.stdout.getvalue() if hasattr(sys.stdout, "getvalue") else ""

    printed_text = stdout_text

    def yaml_text(self, doc):
        import yaml
        return yaml.safe_dump(doc, default_flow_style=False, sort_keys=False, allow_unicode=True)

    def json_of(self, text):
        return json.loads(text)

    def same_json(self, a, b):
        return json.loads(a) == json.loads(b)

    def xml_of(self, text):
        from lxml import etree
        return etree.fromstring(text.encode("utf-8"))

    def xml_text(self, el):
        from lxml import etree
        return etree.tostring(el, encoding="unicode")

    def xml_elem(self, tag, attrs=(), text=None, kids=()):
        from lxml import etree
        e = etree.Element(tag)
        for k, v in attrs:
            e.set(k, v)
        e.text = text
        for k in kids:
            e.append(k)
        return e

    def xml_comment(self, text):
        from lxml import etree
        return etree.Comment(text)

    def xml_pi(self, target, text):
        from lxml import etree
        return etree.ProcessingInstruction(target, text)

    def num(self, v):
        return str(v)

    def main(self, argv):
        import sys
        import contextlib
        import io
        import ucis.__main__ as m
        old = sys.argv
        sys.argv = ["ucis"] + list(argv)
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err):
                r = m.main()
                if isinstance(r, int):
                    return int(r) & 255
        except SystemExit as e:
            c = e.code
            return 0 if c is None else c & 255 if isinstance(c, int) else 1
        except Exception:
            return 1
        finally:
            sys.argv = old
        return 0

    def schema_errors(self, text):
        from lxml import etree
        import os
        xsd = os.path.join(self.src, "ucis/xml/schema/ucis.xsd")
        sch = etree.XMLSchema(etree.parse(xsd))
        root = etree.fromstring(text.encode("utf-8"))
        for e in root.iter():
            if isinstance(e.tag, str) and "}" in e.tag:
                e.tag = e.tag[e.tag.find("}") + 1:]
        doc = root.getroottree()
        if sch.validate(doc):
            return None
        return str(sch.error_log)
