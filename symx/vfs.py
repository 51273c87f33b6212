"""Virtual environment used during symbolic execution: files, streams, console, clock.

Nothing here touches the real file system except read-only access to files
below the repository's source root (its schemas)."""
import os
import sys
from . import proxies as P
from .engine import Unsupported


class SymBytes(object):
    """Bytes whose elements may be symbolic (z3 Int 0..255)."""
    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymBytes(self.items[k])
        v = self.items[k]
        return v

    def __iter__(self):
        return iter(self.items)

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            oi = o.items
        elif isinstance(o, (bytes, bytearray)):
            oi = list(o)
        else:
            return False
        if len(oi) != len(self.items):
            return False
        r = True
        for a, b in zip(self.items, oi):
            r = P.sym_and(r, a == b)
        return r

    def __ne__(self, o):
        return P.sym_not(self.__eq__(o))

    def __hash__(self):
        return hash(self.real())

    def __add__(self, o):
        return SymBytes(self.items + list(o))

    def __radd__(self, o):
        return SymBytes(list(o) + self.items)

    def __bool__(self):
        return len(self.items) > 0

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            r = False
            for x in p:
                r = P.sym_or(r, self.startswith(x))
            return r
        if len(p) > len(self.items):
            return False
        return SymBytes(self.items[:len(p)]) == p

    def real(self):
        return bytes(x if isinstance(x, int) else P.pin_int(x, "bytes") for x in self.items)

    def __bytes__(self):
        return self.real()

    def hex(self, *a):
        return self.real().hex(*a)

    def __repr__(self):
        return "SymBytes(%r)" % (self.items,)


class SymIO(object):
    """Text stream over rope strings."""
    def __init__(self, initial="", name=None, mode="r", on_close=None, env=None):
        self.buf = P.segs_of(initial) if initial is not None else []
        self.name = name
        self.mode = mode
        self.closed = False
        self._rd = None
        self._at_end = False
        self._on_close = on_close

    encoding = "utf-8"
    binary = False
    _bad = False

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, s):
        self._chk()
        if self.mode == "r":
            import io
            raise io.UnsupportedOperation("not writable")
        if self.binary:
            s = s.decode("utf-8")
        x = P.segs_of(s)
        if x is not None and not self.binary and self.encoding in ("ascii", "iso8859-1"):
            if P.has_above(s, 127 if self.encoding == "ascii" else 255):
                raise UnicodeEncodeError(self.encoding, "?", 0, 1, "character not in the encoding")
        if x is None:
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        self.buf.extend(x)
        return 0

    def _fault(self):
        if self._bad is True:
            raise UnicodeDecodeError(self.encoding, b"\xe9", 0, 1, "invalid byte")
        raise self._bad

    def writelines(self, it):
        for s in it:
            self.write(s)

    def getvalue(self):
        return P.mkstr(self.buf)

    def read(self, n=-1):
        self._chk()
        if self._at_end:
            return ""
        if self._bad:
            self._fault()
        if n is None or n < 0:
            self._at_end = True
            if self._rd is not None:
                r = P.str_join("\n", self._rd)
                self._rd = None
                return r
            return P.mkstr(self.buf)
        raise Unsupported("partial text read")

    def _lines(self):
        if self._bad:
            self._fault()
        if self._rd is None:
            if self._at_end:
                self._rd = []
            else:
                v = P.mkstr(self.buf)
                if v == "" and isinstance(v, str):
                    self._rd = []
                else:
                    self._rd = v.split("\n")
        return self._rd

    def readline(self, n=-1):
        self._chk()
        l = self._lines()
        if not l:
            return ""
        x = l.pop(0)
        if l == [""]:
            l.pop()
            return x + "\n"
        return x + "\n" if l else x

    def readlines(self):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if isinstance(l, str) and l == "":
            raise StopIteration
        return l

    def seek(self, p, whence=0):
        self._chk()
        if p == 0 and whence == 0:
            self._at_end = False
            self._rd = None
        elif whence == 2:
            self._at_end = True
        return 0

    def tell(self):
        if self._at_end:
            return len(P.mkstr(self.buf))
        return 0

    def truncate(self, n=None):
        self.buf = []

    def flush(self):
        pass

    def isatty(self):
        return False

    def readable(self):
        return self.mode != "w"

    def writable(self):
        return self.mode != "r"

    def seekable(self):
        return True

    def close(self):
        if not self.closed:
            if self._on_close is not None:
                self._on_close(self)
            self.closed = True

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()
        return False


class SymTBIO(SymIO):
    """Binary stream over the UTF-8 encoding of a rope string."""
    binary = True
    encoding = None

    def __init__(self, initial, name=None, mode="r", head=None, enc="utf-8"):
        SymIO.__init__(self, initial, name, mode)
        self.enc = enc
        self._head = head
        self._hp = 0

    def read(self, n=-1):
        self._chk()
        if n is not None and n >= 0 and self._head is not None:
            r = self._head[self._hp:self._hp + n]
            self._hp += len(r)
            return r
        if self._hp:
            raise Unsupported("reading the rest of a partially read binary file")
        return self._enc(SymIO.read(self))

    def _enc(self, r):
        return r.encode(self.enc) if isinstance(r, str) else P.EncBytes(r, self.enc)

    def peek(self, n=0):
        return self._head[self._hp:]

    def getvalue(self):
        r = SymIO.getvalue(self)
        return self._enc(r)

    def getbuffer(self):
        return self.getvalue()

    def seek(self, p, whence=0):
        if p == 0 and whence == 0:
            self._hp = 0
        elif whence == 0 and self._head is not None and p <= len(self._head):
            self._hp = p
            return p
        return SymIO.seek(self, p, whence)

    def tell(self):
        return self._hp

    def readline(self, n=-1):
        r = SymIO.readline(self)
        return self._enc(r)


class SymBIO(object):
    """Binary stream over bytes / SymBytes."""
    def __init__(self, data, name=None):
        self.data = data
        self.pos = 0
        self.closed = False
        self.name = name

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if n is None or n < 0:
            r = self.data[self.pos:]
            self.pos = len(self.data)
        else:
            r = self.data[self.pos:self.pos + n]
            self.pos += len(r)
        return r

    def peek(self, n=0):
        return self.data[self.pos:]

    def seek(self, p, whence=0):
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class VFile(object):
    """A virtual file: text content plus optional leading bytes and compression."""
    def __init__(self, text="", head=None, comp=None, enc="utf-8"):
        self.enc = enc         # encoding of the text
        self.text = text
        self.head = head       # SymBytes/bytes seen by binary readers
        self.comp = comp       # None | 'gzip' | 'lz4'
        self.fault = None      # what reading the compressed data raises


class LiveFile(VFile):
    """A file being written: readers see what was written so far."""
    def __init__(self, io):
        self.io, self.head, self.comp, self.enc = io, None, None, io.encoding or "utf-8"

    @property
    def text(self):
        return self.io.getvalue()


class Env(object):
    def __init__(self, src):
        self.src = src
        self.files = {}
        self.dirs = {"/virt"}
        self.ntemp = 0
        self.printed = []
        self.stdout = SymIO("", "<stdout>", "w")
        self.stderr = SymIO("", "<stderr>", "w")
        self.argv = ["ucis"]
        self.opened = []        # every SymIO handed out
        self.exit_code = None
        self.dst = False        # the time zone has a gap on March 1st from 2 to 3 o'clock
        self.locale = "utf-8"   # encoding of text files opened without naming one

    def _key(self, p):
        if isinstance(p, P.SymStr):
            p = p.realise("file name")
        if hasattr(p, "__fspath__"):
            p = p.__fspath__()
        return p

    def exists(self, p):
        p = self._key(p)
        return p in self.files or p.rstrip("/") in self.dirs or (p.startswith(self.src) and os.path.exists(p))

    def isdir(self, p):
        p = self._key(p)
        return p.rstrip("/") in self.dirs or (p.startswith(self.src) and os.path.isdir(p))

    def isfile(self, p):
        return self.exists(p) and not self.isdir(p)

    def mkdir(self, p, mode=0o777, *a, **k):
        p = self._key(p).rstrip("/")
        if self.exists(p):
            raise FileExistsError(17, "File exists", p)
        if os.path.dirname(p) not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", p)
        self.dirs.add(p)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        p = self._key(p).rstrip("/")
        if p in self.dirs and exist_ok:
            return
        if p.startswith("/virt/") and os.path.dirname(p) not in self.dirs:
            self.makedirs(os.path.dirname(p))
        self.mkdir(p)

    def remove(self, p, *a, **k):
        p = self._key(p)
        if p not in self.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        del self.files[p]

    def replace(self, a, b, *x, **k):
        a, b = self._key(a), self._key(b)
        if a not in self.files:
            raise FileNotFoundError(2, "No such file or directory", a)
        self._writable(b)
        if a != b:
            self.files[b] = self.files.pop(a)

    def copy(self, a, b, *x, **k):
        a, b = self._key(a), self._key(b)
        if a not in self.files:
            raise FileNotFoundError(2, "No such file or directory", a)
        if b in self.dirs:
            b = os.path.join(b, os.path.basename(a))
        self._writable(b)
        f = self.files[a]
        g = VFile(f.text, f.head, f.comp, f.enc)
        g.fault = getattr(f, "fault", None)
        self.files[b] = g
        return b

    def temp(self, suffix=None, prefix=None, dir=None):
        self.ntemp += 1
        p = os.path.join(self._key(dir) if dir else "/virt", "%stmp%d%s" % (prefix or "", self.ntemp, suffix or ""))
        self._writable(p)
        return p

    def listdir(self, p="."):
        p = self._key(p).rstrip("/")
        if p not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", p)
        return [os.path.basename(f) for f in list(self.files) + sorted(self.dirs) if os.path.dirname(f) == p]

    def glob(self, p, *a, **k):
        import glob
        import fnmatch
        p = self._key(p)
        if not glob.has_magic(p):
            return [p] if self.exists(p) else []
        if glob.has_magic(os.path.dirname(p)):
            raise Unsupported("glob in several directories")
        return [f for f in self.files if os.path.dirname(f) == os.path.dirname(p) and
                fnmatch.fnmatchcase(os.path.basename(f), os.path.basename(p)) and
                (not os.path.basename(f).startswith(".") or os.path.basename(p).startswith("."))]

    def _writable(self, path):
        if self.isdir(path):
            raise IsADirectoryError(21, "Is a directory", path)
        if path.startswith("/virt/") and os.path.dirname(path) not in self.dirs:
            raise FileNotFoundError(2, "No such file or directory", path)

    def open(self, path, mode="r", *a, **k):
        path = self._key(path)
        if not isinstance(path, str):
            raise Unsupported("open(%r)" % (path,))
        enc = P.norm_enc(k.get("encoding") or (a[1] if len(a) > 1 else None) or self.locale)
        if isinstance(path, str) and self.isdir(path):
            raise IsADirectoryError(21, "Is a directory", path)
        if "r" in mode and "+" not in mode:
            if path in self.files:
                f = self.files[path]
                if "b" in mode:
                    h = f.head
                    if h is None:
                        h = "<?xml version='1.0'?>".encode(f.enc)
                    if f.comp is None:
                        return SymTBIO(f.text, path, "r", h, f.enc)
                    return SymBIO(h, path)
                if f.comp is not None:
                    raise UnicodeDecodeError("utf-8", b"\x8b", 0, 1, "compressed data read as text")
                t = P.check_decode(f.text, f.enc, enc)
                io = SymIO("" if t is None else t, path, "r")
                io._bad = t is None
                io.encoding = enc
                self.opened.append(io)
                return io
            rp = os.path.realpath(path)
            if rp.startswith(os.path.realpath(self.src)):
                return open(rp, mode, *a, **k)
            raise FileNotFoundError(2, "No such file or directory: %s" % path)
        self._writable(path)
        init = ""
        if "x" in mode and path in self.files:
            raise FileExistsError(17, "File exists", path)
        if "a" in mode and path in self.files:
            init = self.files[path].text
        io = SymIO(init, path, "w")
        io.binary = "b" in mode
        io.encoding = "utf-8" if io.binary else enc
        self.files[path] = LiveFile(io)
        self.opened.append(io)
        return io
