"""Stand-in for the parts of lxml.etree used by the code under test.

Serialisation produces an opaque text segment carrying a copy of the element
tree; parsing such text gives the tree back, normalised the way an XML parser
normalises it (empty text becomes None).  Concrete XML text is parsed with the
standard library's expat.  XMLSchema interprets the repository's own .xsd file
(sequence / choice / element / attribute / attributeGroup / enumeration).
"""
import io
import re
import types
import xml.etree.ElementTree as ET

import z3
from . import proxies as P
from . import engine as E
from .engine import Unsupported
from .vfs import SymIO


class LxmlError(Exception):
    pass


class XMLSyntaxError(LxmlError, SyntaxError):
    pass


class DocumentInvalid(LxmlError):
    pass


class XMLSchemaError(LxmlError):
    pass


class XMLSchemaParseError(XMLSchemaError):
    pass


_NAME = re.compile(r"^[A-Za-z_][\w.\-]*$")


class QName(object):
    def __init__(self, text_or_uri, tag=None):
        if tag is not None:
            self.text = "{%s}%s" % (text_or_uri, tag)
        elif isinstance(text_or_uri, Element_):
            self.text = text_or_uri.tag
        else:
            self.text = text_or_uri

    @property
    def localname(self):
        return self.text.rpartition("}")[2]

    @property
    def namespace(self):
        return self.text[1:].partition("}")[0] if self.text.startswith("{") else None

    def __str__(self):
        return self.text

    def __eq__(self, o):
        return self.text == (o.text if isinstance(o, QName) else o)

    def __hash__(self):
        return hash(self.text)


def _tag(t):
    if isinstance(t, QName):
        return t.text
    if isinstance(t, P.SymStr):
        t = t.realise("xml tag")
    if not isinstance(t, str):
        raise TypeError("Argument must be bytes or unicode, got '%s'" % type(t).__name__)
    local = t.rpartition("}")[2]
    if not _NAME.match(local):
        raise ValueError("Invalid tag name %r" % t)
    return t


def _xmlchars(v):
    """lxml refuses NUL and control characters."""
    for s in P.segs_of(v):
        if isinstance(s, str):
            for c in s:
                if ord(c) < 32 and c not in "\t\n\r":
                    raise ValueError("All strings must be XML compatible")
        elif isinstance(s, z3.ExprRef):
            if E.CUR.branch(z3.And(s < 32, s != 9, s != 10, s != 13)):
                raise ValueError("All strings must be XML compatible")


def _strval(v):
    if not isinstance(v, (str, P.SymStr)):
        raise TypeError("Argument must be bytes or unicode, got '%s'" % type(v).__name__)
    _xmlchars(v)
    return v


class Attrib(P.SymDict):
    def __setitem__(self, k, v):
        P.SymDict.__setitem__(self, k.text if isinstance(k, QName) else k, _strval(v))

    def has_key(self, k):
        return k in self


class Element_(object):
    def __init__(self, tag, attrib=None, nsmap=None, **extra):
        self._t = _tag(tag)
        self.attrib = Attrib()
        self._text = None
        self._tail = None
        self._ch = []
        self._p = None
        self.nsmap = dict(nsmap.items()) if nsmap else {}
        self.prefix = None
        self.sourceline = None
        for k, v in list((attrib or {}).items()) + list(extra.items()):
            self.set(k, v)

    @property
    def tag(self):
        return self._t

    @tag.setter
    def tag(self, v):
        self._t = _tag(v)

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, v):
        self._text = v if v is None else _strval(v)

    @property
    def tail(self):
        return self._tail

    @tail.setter
    def tail(self, v):
        self._tail = v if v is None else _strval(v)

    def set(self, k, v):
        self.attrib[k] = v

    def get(self, k, d=None):
        return self.attrib.get(k.text if isinstance(k, QName) else k, d)

    def keys(self):
        return list(self.attrib.keys())

    def items(self):
        return list(self.attrib.items())

    def values(self):
        return list(self.attrib.values())

    def append(self, c):
        if c._p is not None:
            c._p._ch.remove(c)
        self._ch.append(c)
        c._p = self

    def extend(self, cs):
        for c in list(cs):
            self.append(c)

    def insert(self, i, c):
        if c._p is not None:
            c._p._ch.remove(c)
        self._ch.insert(i, c)
        c._p = self

    def remove(self, c):
        self._ch.remove(c)
        c._p = None

    def clear(self):
        self._ch, self._text, self._tail = [], None, None
        self.attrib.clear()

    def getparent(self):
        return self._p

    def getchildren(self):
        return list(self._ch)

    def getroottree(self):
        e = self
        while e._p is not None:
            e = e._p
        return ElementTree_(e)

    def getnext(self):
        if self._p is None:
            return None
        i = [x is self for x in self._p._ch].index(True)
        return self._p._ch[i + 1] if i + 1 < len(self._p._ch) else None

    def getprevious(self):
        if self._p is None:
            return None
        i = [x is self for x in self._p._ch].index(True)
        return self._p._ch[i - 1] if i > 0 else None

    def makeelement(self, tag, attrib=None, nsmap=None, **k):
        return Element_(tag, attrib, nsmap, **k)

    def __iter__(self):
        return iter(list(self._ch))

    def __len__(self):
        return len(self._ch)

    def __getitem__(self, i):
        return self._ch[i]

    def __bool__(self):
        return len(self._ch) > 0

    def _match(self, tags):
        if not tags:
            return True
        if not isinstance(self._t, str):
            return any([t is self._t or t is None for t in tags])
        for t in tags:
            if t is None or t == "*":
                return True
            if isinstance(t, QName):
                t = t.text
            if t is Element_ or t is Element:
                return True
            if not isinstance(t, str):
                continue
            if t.startswith("{*}"):
                if self._t.rpartition("}")[2] == t[3:]:
                    return True
            elif self._t == t:
                return True
        return False

    def _walk(self):
        yield self
        for c in list(self._ch):
            for x in c._walk():
                yield x

    def iter(self, *tags):
        for x in self._walk():
            if x._match(tags):
                yield x

    getiterator = iter

    def iterchildren(self, *tags, **k):
        for c in list(self._ch):
            if c._match(tags):
                yield c

    def iterdescendants(self, *tags):
        for x in self._walk():
            if x is not self and x._match(tags):
                yield x

    def iterancestors(self, *tags):
        p = self._p
        while p is not None:
            if p._match(tags):
                yield p
            p = p._p

    def itersiblings(self, *tags, **k):
        n = self.getnext()
        while n is not None:
            if n._match(tags):
                yield n
            n = n.getnext()

    def _path(self, path):
        cur = [self]
        if isinstance(path, QName):
            path = path.text
        if path.startswith("./") and not path.startswith(".//"):
            path = path[2:]
        if path.startswith(".//"):
            rest = path[3:].split("/")
            out = []
            for x in self.iterdescendants(rest[0]):
                out.append(x)
            cur = out
            rest = rest[1:]
        else:
            if path.startswith("/"):
                raise Unsupported("absolute path")
            rest = re.findall(r"(?:\{[^}]*\})?[^/{}]+", path)
        for r in rest:
            if r == ".":
                continue
            if "[" in r or "@" in r:
                raise Unsupported("ElementPath predicate")
            cur = [c for e in cur for c in e.iterchildren(r)]
        return cur

    def find(self, path, namespaces=None):
        r = self._path(path)
        return r[0] if r else None

    def findall(self, path, namespaces=None):
        return self._path(path)

    def iterfind(self, path, namespaces=None):
        return iter(self._path(path))

    def findtext(self, path, default=None, namespaces=None):
        e = self.find(path)
        if e is None:
            return default
        return e.text if e.text is not None else ""

    def xpath(self, path, **k):
        if re.match(r"^(\.//|//|\./)?[\w*]+(/[\w*]+)*$", path):
            if path.startswith("//"):
                path = "." + path
            return self._path(path)
        raise Unsupported("xpath")

    def itertext(self, *a, **k):
        if self._text is not None:
            yield self._text
        for c in self._ch:
            for t in c.itertext():
                yield t
            if c._tail is not None:
                yield c._tail

    def clone(self):
        e = Element_(self._t, None, self.nsmap)
        for k, v in self.attrib.items():
            P.SymDict.__setitem__(e.attrib, k, v)
        e._text, e._tail = self._text, self._tail
        for c in self._ch:
            x = c.clone()
            e._ch.append(x)
            x._p = e
        return e

    def __copy__(self):
        return self.clone()

    def __deepcopy__(self, memo):
        return self.clone()


class Misc_(Element_):
    """A comment or processing instruction: its tag is the function that creates it."""

    def __init__(self, fn, text):
        self._t = fn
        self.attrib = Attrib()
        self._text, self._tail, self._ch, self._p = text, None, [], None
        self.nsmap, self.prefix, self.sourceline = {}, None, None

    @property
    def tag(self):
        return self._t

    def set(self, k, v):
        raise TypeError("this element does not have children or attributes")

    def append(self, c):
        raise TypeError("this element does not have children or attributes")

    def clone(self):
        e = Misc_(self._t, self._text)
        e._tail = self._tail
        return e

    def itertext(self, *a, **k):
        return iter(())


def Comment(text=None):
    return Misc_(Comment, text)


def ProcessingInstruction(target, text=None):
    return Misc_(ProcessingInstruction, text)


PI = ProcessingInstruction


def Element(tag, attrib=None, nsmap=None, **extra):
    return Element_(tag, attrib, nsmap, **extra)


def SubElement(parent, tag, attrib=None, nsmap=None, **extra):
    e = Element_(tag, attrib, nsmap, **extra)
    parent.append(e)
    return e


class ElementTree_(object):
    def __init__(self, root):
        self._root = root
        self.docinfo = types.SimpleNamespace(encoding="UTF-8", xml_version="1.0")

    def getroot(self):
        return self._root

    def iter(self, *t):
        return self._root.iter(*t)
    getiterator = iter

    def find(self, p, *a):
        return self._root.find(p.lstrip("/") if p.startswith("/") else p)

    def findall(self, p, *a):
        return self._root.findall(p)

    def iterfind(self, p, *a):
        return self._root.iterfind(p)

    def xpath(self, p, **k):
        return self._root.xpath(p)

    def write(self, f, *a, **k):
        t = tounicode(self._root)
        f.write(t)


def ElementTree(element=None, file=None, parser=None):
    if element is None:
        return parse(file)
    return ElementTree_(element)


def _parsed(e):
    """The tree an XML parser produces from the serialised form of e."""
    if isinstance(e, Misc_):
        return e.clone()
    n = Element_(e._t, None, e.nsmap)
    for k, v in e.attrib.items():
        P.SymDict.__setitem__(n.attrib, k, v)
    t = e._text
    if isinstance(t, str) and t == "":
        t = None
    n._text = t
    n._tail = e._tail
    for c in e._ch:
        x = _parsed(c)
        n._ch.append(x)
        x._p = n
    if e._ch and t is None:
        n._text = "\n"
    return n


def tounicode(el, method="xml", pretty_print=False, with_tail=True, doctype=None):
    if isinstance(el, ElementTree_):
        el = el._root
    return P.mkstr([P.Opq("xml", el.clone())] + (["\n"] if pretty_print else []))


def tostring(el, encoding=None, method="xml", xml_declaration=None, pretty_print=False, **k):
    if isinstance(el, ElementTree_):
        el = el._root
    r = tounicode(el, pretty_print=pretty_print)
    if encoding is str or encoding == "unicode" or encoding == str:
        return r
    return _XmlBytes(r)


_XmlBytes = P.EncBytes


def _from_et(x):
    e = Element_(x.tag)
    for k, v in x.attrib.items():
        e.set(k, v)
    e._text = x.text
    for c in x:
        k = _from_et(c)
        k._tail = c.tail
        e._ch.append(k)
        k._p = e
    return e


_SCHEMAS = {}


def _parse_text(txt):
    if isinstance(txt, bytes):
        try:
            txt.decode("utf-8")
        except UnicodeDecodeError:
            try:
                return _from_et(ET.fromstring(txt))
            except (ET.ParseError, UnicodeError, ValueError) as e:
                raise XMLSyntaxError(str(e))
        txt = txt.decode("utf-8")
    if isinstance(txt, str) and txt.startswith("\ufeff"):
        txt = txt[1:]
    segs = P.segs_of(txt)
    if segs and isinstance(segs[0], str) and segs[0].startswith("\ufeff"):
        segs = [segs[0][1:]] + list(segs[1:])
    ops = [s for s in segs if isinstance(s, P.Opq)]
    if ops:
        if len(ops) != 1 or ops[0].kind != "xml":
            raise XMLSyntaxError("Extra content at the end of the document")
        for s in segs:
            if s is ops[0]:
                continue
            if isinstance(s, str) and (s.strip() == "" or s.strip().startswith("<?xml") or s.strip().startswith("<!--")):
                continue
            raise XMLSyntaxError("document text around the root element")
        return _parsed(ops[0].obj)
    if isinstance(txt, P.SymStr):
        txt = txt.realise("parse symbolic xml text")
    if "<xsd:schema" in txt:
        # the schema document is only read, never modified: parse it once per process
        if txt not in _SCHEMAS:
            _SCHEMAS[txt] = _from_et(ET.fromstring(txt))
        return _SCHEMAS[txt]
    try:
        return _from_et(ET.fromstring(txt))
    except ET.ParseError as e:
        raise XMLSyntaxError(str(e))


def _declared(txt):
    """encoding named in the XML declaration"""
    import re
    segs = P.segs_of(txt)
    m = re.match("\ufeff?<\\?xml[^>]*encoding=[\"']([^\"']*)[\"']", segs[0]) if segs and isinstance(segs[0], str) else None
    return m.group(1) if m else None


def _decoded(b):
    """The text a parser sees: encoding from the byte-order mark or declaration, otherwise UTF-8."""
    enc = P.norm_enc(b.enc)
    if enc in ("utf-16", "utf-8-sig"):
        return b.s
    t = P.check_decode(b.s, enc, _declared(b.s))
    if t is None:
        raise XMLSyntaxError("Invalid bytes in character encoding")
    return t


def parse(source, parser=None, base_url=None):
    if isinstance(source, (str, P.SymStr)):
        from . import loader
        source = loader.WORLD.env.open(source)
    txt = source.read()
    if isinstance(txt, _XmlBytes):
        txt = _decoded(txt)
    return ElementTree_(_with_parser(_parse_text(txt), parser))


def fromstring(text, parser=None, **k):
    if isinstance(text, _XmlBytes):
        text = _decoded(text)
    elif not isinstance(text, bytes) and _declared(text) is not None:
        raise ValueError("Unicode strings with encoding declaration are not supported.")
    return _with_parser(_parse_text(text), parser)


# ------------------------------------------------------------------ XSD subset
XS = "{http://www.w3.org/2001/XMLSchema}"


def _elems(e):
    return [c for c in e._ch if not isinstance(c, Misc_)]


class _Invalid(Exception):
    pass


class XMLSchema(object):
    def __init__(self, etree=None, file=None, **k):
        if etree is None:
            etree = parse(file)
        root = etree.getroot() if hasattr(etree, "getroot") else etree
        if root._t not in (XS + "schema", "schema"):
            raise XMLSchemaParseError("not a schema")
        self.types = {}
        self.groups = {}
        self.elems = {}
        for c in root:
            t = c._t.replace(XS, "")
            if t in ("complexType", "simpleType"):
                self.types[c.get("name")] = c
            elif t == "attributeGroup":
                self.groups[c.get("name")] = c
            elif t == "element":
                self.elems[c.get("name")] = c
            elif t == "annotation":
                pass
            else:
                raise Unsupported("xsd:" + t)
        self.error_log = []

    def assertValid(self, doc):
        e = self._run(doc)
        if e is not None:
            raise DocumentInvalid(e)

    assert_ = assertValid

    def validate(self, doc):
        e = self._run(doc)
        self.error_log = [] if e is None else [e]
        return e is None

    __call__ = validate

    def _run(self, doc):
        root = doc.getroot() if hasattr(doc, "getroot") else doc
        try:
            d = self.elems.get(root._t)
            if d is None:
                raise _Invalid("Element '%s': No matching global declaration available" % root._t)
            self._element(root, d)
        except _Invalid as e:
            return str(e)
        return None

    def _element(self, e, decl):
        ty = decl.get("type")
        if ty is None:
            inner = [c for c in decl if c._t in (XS + "complexType", XS + "simpleType")]
            if inner:
                return self._typed(e, inner[0])
            raise Unsupported("anyType element")
        if ty.startswith("xsd:") or ty.startswith("xs:"):
            if len(_elems(e)):
                raise _Invalid("Element '%s': children not allowed" % e._t)
            if len(e.attrib):
                raise _Invalid("Element '%s': attributes not allowed" % e._t)
            return self._simple(e._text if e._text is not None else "", ty.split(":")[1], e._t)
        self._typed(e, self.types[ty])

    def _typed(self, e, ty):
        if ty._t == XS + "simpleType":
            return self._simple_type(e._text or "", ty, e._t)
        attrs = {}
        self._attrs(ty, attrs)
        seen = set()
        for k, v in e.attrib.items():
            if k.startswith("{http://www.w3.org/2001/XMLSchema-instance}"):
                continue
            if k not in attrs:
                raise _Invalid("Element '%s', attribute '%s': not allowed" % (e._t, k))
            self._attr_val(v, attrs[k], e._t + "/@" + k)
            seen.add(k)
        for k, d in attrs.items():
            if d.get("use") == "required" and k not in seen:
                raise _Invalid("Element '%s': attribute '%s' is required but missing" % (e._t, k))
        part = [c for c in ty if c._t in (XS + "sequence", XS + "choice", XS + "all")]
        kids = _elems(e)
        i = 0
        if part:
            i = self._particle(kids, 0, part[0])
            if i is None:
                raise _Invalid("Element '%s': content model violated (children: %s)" % (
                    e._t, [k._t for k in kids[:12]]))
        if i < len(kids):
            raise _Invalid("Element '%s': This element is not expected" % kids[i]._t)
        if ty.get("mixed") != "true" and e._text is not None:
            t = e._text
            if isinstance(t, P.SymStr):
                t = t.strip()
            if (isinstance(t, str) and t.strip() != "") or isinstance(t, P.SymStr):
                raise _Invalid("Element '%s': Character content is not allowed" % e._t)

    def _attrs(self, node, out):
        for c in node:
            if c._t == XS + "attribute":
                out[c.get("name")] = c
            elif c._t == XS + "attributeGroup":
                self._attrs(self.groups[c.get("ref")], out)
            elif c._t in (XS + "sequence", XS + "choice", XS + "all", XS + "annotation"):
                pass
            else:
                raise Unsupported("xsd complexType/" + c._t)

    def _attr_val(self, v, decl, where):
        ty = decl.get("type")
        if ty is None:
            st = [c for c in decl if c._t == XS + "simpleType"]
            return self._simple_type(v, st[0], where)
        if ":" in ty:
            return self._simple(v, ty.split(":")[1], where)
        return self._simple_type(v, self.types[ty], where)

    def _simple_type(self, v, st, where):
        for r in st:
            if r._t != XS + "restriction":
                raise Unsupported("xsd simpleType/" + r._t)
            vals = [x.get("value") for x in r if x._t == XS + "enumeration"]
            if vals:
                ok = False
                for x in vals:
                    ok = P.sym_or(ok, v == x)
                if not ok:
                    raise _Invalid("%s: value not in enumeration %s" % (where, vals))
            self._simple(v, r.get("base").split(":")[1], where)

    def _simple(self, v, ty, where):
        if ty == "string":
            return
        bad = _Invalid("%s: not a valid value of the atomic type 'xs:%s'" % (where, ty))
        v0, v = v, v.strip()
        if ty in ("integer", "nonNegativeInteger", "positiveInteger"):
            if isinstance(v, str):
                if not re.match(r"^\s*[+-]?\d+\s*$", v):
                    raise bad
            try:
                n = P.sym_int(v)
            except ValueError:
                raise bad
            if ty == "nonNegativeInteger" and n < 0:
                raise bad
            if ty == "positiveInteger" and n <= 0:
                raise bad
            return
        if ty == "boolean":
            ok = False
            for x in ("true", "false", "1", "0"):
                ok = P.sym_or(ok, v == x)
            if not ok:
                raise bad
            return
        if ty in ("double", "float", "decimal"):
            if isinstance(v, str):
                if ty == "decimal":
                    if not re.match(r"^\s*[+-]?(\d+(\.\d*)?|\.\d+)\s*$", v):
                        raise bad
                elif not re.match(r"^\s*([+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?|-?INF|NaN)\s*$", v):
                    raise bad
                return
            if len(v.segs) == 1 and isinstance(v.segs[0], (P.Num, P.Flt)):
                return
            try:
                P.sym_float(v)
            except ValueError:
                raise bad
            return
        if ty == "dateTime":
            # libxml2 accepts no white space around dates
            self._datetime(v0, bad)
            return
        raise Unsupported("xsd type " + ty)

    def _datetime(self, v, bad):
        if isinstance(v, str):
            m = re.match(r"^-?\d{4,}-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)?$", v)
            if not m:
                raise bad
            mo, d, h, mi, s = [int(x) for x in m.groups()[:5]]
            if not (1 <= mo <= 12 and 1 <= d <= 31 and h <= 24 and mi < 60 and s < 60):
                raise bad
            return
        cs = v.chars()
        pat = "dddd-dd-ddTdd:dd:dd"
        if len(cs) != len(pat):
            raise bad
        dig = []
        for c, p in zip(cs, pat):
            o = P._ord(c)
            if p == "d":
                if not E.CUR.branch(z3.And(o >= 48, o <= 57)):
                    raise bad
                dig.append(o - 48)
            elif not E.CUR.branch(o == ord(p)):
                raise bad
        two = [dig[i] * 10 + dig[i + 1] for i in range(4, 14, 2)]
        mo, d, h, mi, s = two
        if not E.CUR.branch(z3.And(mo >= 1, mo <= 12, d >= 1, d <= 31, h <= 23, mi <= 59, s <= 59)):
            raise bad

    # particles: returns index after match or None
    def _particle(self, kids, i, p):
        lo = int(p.get("minOccurs", "1"))
        hi = p.get("maxOccurs", "1")
        hi = 10 ** 9 if hi == "unbounded" else int(hi)
        n = 0
        while n < hi:
            j = self._once(kids, i, p)
            if j is None:
                break
            n += 1
            if j == i:
                n = max(n, lo)
                break
            i = j
        if n < lo:
            return None
        return i

    def _once(self, kids, i, p):
        t = p._t.replace(XS, "")
        if t == "element":
            name = p.get("name") or p.get("ref")
            if i < len(kids) and kids[i]._t == name:
                self._element(kids[i], p if p.get("ref") is None else self.elems[name])
                return i + 1
            return None
        if t == "sequence":
            for c in p:
                if c._t == XS + "annotation":
                    continue
                i = self._particle(kids, i, c)
                if i is None:
                    return None
            return i
        if t == "choice":
            for c in p:
                j = self._particle(kids, i, c)
                if j is not None and j > i:
                    return j
            for c in p:
                j = self._particle(kids, i, c)
                if j is not None:
                    return j
            return None
        raise Unsupported("xsd particle " + t)


class XMLParser(object):
    def __init__(self, *a, **k):
        self.k = k


def _strip_misc(e, com, pi):
    """Removes comments and/or processing instructions; the text around them is joined."""
    prev = None
    for c in list(e._ch):
        if not isinstance(c, Misc_):
            _strip_misc(c, com, pi)
        elif pi if c._t is ProcessingInstruction else com:
            e._ch.remove(c)
            if prev is None:
                e._text = _join(e._text, c._tail)
            else:
                prev._tail = _join(prev._tail, c._tail)
            continue
        prev = c


def _join(a, b):
    if a is None or b is None:
        return b if a is None else a
    return P.mkstr(list(P.segs_of(a)) + list(P.segs_of(b)))


def _with_parser(e, parser):
    k = getattr(parser, "k", {})
    if k.get("remove_comments") or k.get("remove_pis"):
        _strip_misc(e, k.get("remove_comments"), k.get("remove_pis"))
    return e


def make(world):
    m = types.ModuleType("lxml.etree")
    for n in ("QName", "Element", "SubElement", "ElementTree", "tounicode", "tostring", "parse",
              "fromstring", "XMLSchema", "DocumentInvalid", "XMLSyntaxError", "LxmlError",
              "XMLSchemaError", "XMLSchemaParseError", "XMLParser", "Comment", "ProcessingInstruction", "PI"):
        setattr(m, n, globals()[n])
    m.XML = fromstring
    m._Element = Element_
    m._ElementTree = ElementTree_
    m._Comment = Misc_
    m._ProcessingInstruction = Misc_

    def iselement(x):
        return isinstance(x, Element_)
    m.iselement = iselement

    def indent(*a, **k):
        pass
    m.indent = indent

    def strip_ns(*a, **k):
        pass
    m.cleanup_namespaces = strip_ns
    return m
