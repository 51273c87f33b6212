"""Symbolic proxy values: SymBool, SymInt, SymReal, SymStr, SymDict, SymSet."""
import z3
from fractions import Fraction
from . import engine as _E
from .engine import Unsupported

_real_str = str
_real_int = int
_real_float = float
_real_bool = bool
_real_isinstance = isinstance
_real_len = len


def eng():
    return _E.CUR


# ----------------------------------------------------------------- helpers
def is_sym(x):
    return _real_isinstance(x, (SymBool, SymInt, SymReal, SymStr))


def is_num(x):
    return _real_isinstance(x, (_real_int, _real_float, SymInt, SymReal, SymBool, Fraction))


def to_fraction(f):
    return Fraction(f)


def zint(x):
    """z3 Int term of an int-like value, or None."""
    if _real_isinstance(x, SymInt):
        return x.z()
    if _real_isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if _real_isinstance(x, _real_int):
        return z3.IntVal(_real_int(x))
    return None


def zreal(x):
    if _real_isinstance(x, SymReal):
        return x.e
    if _real_isinstance(x, Fraction):
        return z3.RealVal(x)
    if _real_isinstance(x, _real_float):
        if x != x or x in (_real_float("inf"), _real_float("-inf")):
            return None
        f = Fraction(x)
        return z3.RealVal(f)
    i = zint(x)
    if i is None:
        return None
    return z3.ToReal(i) if not z3.is_int_value(i) else z3.RealVal(i.as_long())


def zbool(x):
    if _real_isinstance(x, SymBool):
        return x.e
    if _real_isinstance(x, _real_bool):
        return z3.BoolVal(x)
    if _real_isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(_real_bool(x))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkreal(e):
    e = z3.simplify(e)
    return SymReal(e)


class SymBool(object):
    __slots__ = ("e",)
    _symx = True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def _i(self):
        return mkint(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if _real_isinstance(o, (SymBool, _real_bool)):
            return mkbool(z3.And(self.e, zbool(o)))
        return self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        if _real_isinstance(o, (SymBool, _real_bool)):
            return mkbool(z3.Or(self.e, zbool(o)))
        return self._i() | o
    __ror__ = __or__

    def __xor__(self, o):
        if _real_isinstance(o, (SymBool, _real_bool)):
            return mkbool(z3.Xor(self.e, zbool(o)))
        return self._i() ^ o
    __rxor__ = __xor__

    def __invert__(self):
        return ~self._i()

    def __eq__(self, o):
        if _real_isinstance(o, (SymBool, _real_bool)):
            return mkbool(self.e == zbool(o))
        if is_num(o):
            return self._i() == o
        return NotImplemented if hasattr(type(o), "__eq__") and not _real_isinstance(o, (_real_str, type(None))) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sym_not(r)

    def __hash__(self):
        return hash(_real_bool(self))

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __truediv__(self, o): return sym_div(self._i(), o)
    def __rtruediv__(self, o): return sym_div(o, self._i())
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __neg__(self): return -self._i()
    def __pos__(self): return +self._i()
    def __int__(self): return 1 if self else 0
    def __index__(self): return 1 if self else 0
    def __float__(self): return 1.0 if self else 0.0

    def __repr__(self):
        return "SymBool(%s)" % self.e

    def __str__(self):
        return "True" if self else "False"

    def __format__(self, spec):
        return format(_real_bool(self), spec)


def sym_not(x):
    if _real_isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def _mask_runs(m):
    """runs of 1 bits of a non-negative mask: [(shift,width)]"""
    out = []
    s = 0
    while m:
        if m & 1:
            w = 0
            while m & 1:
                w += 1
                m >>= 1
            out.append((s, w))
            s += w
        else:
            m >>= 1
            s += 1
    return out


class SymInt(object):
    """Mathematical integer (z3 Int) or a 64-bit mask kept as a bit-vector (bv)."""
    __slots__ = ("_e", "bv")
    _symx = True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, e=None, bv=None):
        self._e = e
        self.bv = bv

    def z(self):
        if self._e is None:
            self._e = z3.BV2Int(self.bv, is_signed=False)
        return self._e

    @property
    def e(self):
        return self.z()

    # -- arithmetic
    def _bin(self, o, f, rev=False):
        b = zint(o)
        if b is None:
            return None
        a = self.z()
        return mkint(f(b, a) if rev else f(a, b))

    def _real(self):
        return SymReal(z3.ToReal(self.z()))

    def __add__(self, o):
        if _real_isinstance(o, (_real_float, SymReal, Fraction)):
            return self._real() + o
        r = self._bin(o, lambda a, b: a + b)
        return NotImplemented if r is None else r

    def __radd__(self, o):
        if _real_isinstance(o, (_real_float, SymReal, Fraction)):
            return self._real() + o
        r = self._bin(o, lambda a, b: a + b, True)
        return NotImplemented if r is None else r

    def __sub__(self, o):
        if _real_isinstance(o, (_real_float, SymReal, Fraction)):
            return self._real() - o
        r = self._bin(o, lambda a, b: a - b)
        return NotImplemented if r is None else r

    def __rsub__(self, o):
        if _real_isinstance(o, (_real_float, SymReal, Fraction)):
            return (-self._real()) + o
        r = self._bin(o, lambda a, b: a - b, True)
        return NotImplemented if r is None else r

    def __mul__(self, o):
        if _real_isinstance(o, (_real_float, SymReal, Fraction)):
            return self._real() * o
        if _real_isinstance(o, (_real_str, list, tuple, SymStr)):
            return o * self.__index__()
        r = self._bin(o, lambda a, b: a * b)
        return NotImplemented if r is None else r
    __rmul__ = __mul__

    def __truediv__(self, o): return sym_div(self, o)
    def __rtruediv__(self, o): return sym_div(o, self)

    def __floordiv__(self, o): return sym_floordiv(self, o)
    def __rfloordiv__(self, o): return sym_floordiv(o, self)
    def __mod__(self, o): return sym_mod(self, o)
    def __rmod__(self, o): return sym_mod(o, self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, m=None):
        if _real_isinstance(o, _real_int) and 0 <= o <= 8 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return _real_int(self) ** o

    def __neg__(self): return mkint(-self.z())
    def __pos__(self): return self

    def __abs__(self):
        return mkint(z3.If(self.z() < 0, -self.z(), self.z()))

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        raise Unsupported("round(int, negative)")

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    # -- comparison
    def _cmp(self, o, f, bvf=None):
        if bvf is not None and self.bv is not None:
            ob = _as_bv(o)
            if ob is not None:
                return mkbool(bvf(self.bv, ob))
        if _real_isinstance(o, (_real_float, SymReal, Fraction)):
            r = zreal(o)
            if r is None:
                return f(0.0, o)
            return mkbool(f(z3.ToReal(self.z()), r))
        b = zint(o)
        if b is None:
            return None
        return mkbool(f(self.z(), b))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        if r is None:
            if o is None or _real_isinstance(o, (_real_str, SymStr, list, tuple, dict)):
                return False
            return NotImplemented
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sym_not(r)

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b, z3.ULT)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b, z3.ULE)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b, z3.UGT)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b, z3.UGE)
        return NotImplemented if r is None else r

    # -- bit operations
    def __and__(self, o):
        if self.bv is not None or (_real_isinstance(o, SymInt) and o.bv is not None):
            a, b = _as_bv(self), _as_bv(o)
            if a is not None and b is not None:
                return mkbv(a & b)
        if _real_isinstance(o, SymBool):
            o = o._i()
        if _real_isinstance(o, _real_int):
            o = _real_int(o)
            if o >= 0:
                t = z3.IntVal(0)
                x = self.z()
                for s, w in _mask_runs(o):
                    v = x
                    if s:
                        v = v / z3.IntVal(1 << s)
                    t = t + (v % z3.IntVal(1 << w)) * z3.IntVal(1 << s)
                return mkint(t)
            # x & negative = x - (x & ~o)
            return self - (self & ~o)
        if _real_isinstance(o, SymInt):
            return self & pin_int(o, "bitand-sym-sym")
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if self.bv is not None or (_real_isinstance(o, SymInt) and o.bv is not None):
            a, b = _as_bv(self), _as_bv(o)
            if a is not None and b is not None:
                return mkbv(a | b)
        if _real_isinstance(o, (_real_int, SymInt, SymBool)):
            return (self + o) - (self & o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if self.bv is not None or (_real_isinstance(o, SymInt) and o.bv is not None):
            a, b = _as_bv(self), _as_bv(o)
            if a is not None and b is not None:
                return mkbv(a ^ b)
        if _real_isinstance(o, (_real_int, SymInt, SymBool)):
            return (self + o) - 2 * (self & o)
        return NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        return self * (1 << _real_int(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (1 << _real_int(o))

    def __rrshift__(self, o):
        return o >> self.__index__()

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, *a, **k):
        return pin_int(self, "to_bytes").to_bytes(*a, **k)

    def conjugate(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    @property
    def numerator(self): return self

    @property
    def denominator(self): return 1

    def is_integer(self): return True

    # -- conversion
    def __bool__(self):
        if self.bv is not None:
            return eng().branch(self.bv != 0)
        return eng().branch(self.z() != 0)

    def __index__(self):
        return eng().enumerate_int(self.z())

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return _real_float(pin_int(self, "float()"))

    def __hash__(self):
        return hash(pin_int(self, "hash(int)"))

    def __str__(self):
        return _real_str(pin_int(self, "native str(int)"))

    def __repr__(self):
        return "SymInt(%s)" % (self._e if self._e is not None else self.bv)

    def __format__(self, spec):
        return format(pin_int(self, "native format(int)"), spec)


def pin_int(x, why):
    if _real_isinstance(x, _real_int):
        return x
    return eng().pin(x.z(), why).as_long()


def _as_bv(x):
    if _real_isinstance(x, SymInt):
        return x.bv
    if _real_isinstance(x, _real_int):
        v = _real_int(x)
        if 0 <= v < (1 << 64):
            return z3.BitVecVal(v, 64)
        if -(1 << 63) <= v < 0:
            return z3.BitVecVal(v & ((1 << 64) - 1), 64) if False else None
    return None


def mkbv(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return SymInt(None, e)


def sym_div(a, b):
    """True division with exact rational semantics."""
    if not is_sym(a) and not is_sym(b):
        if _real_isinstance(a, _real_int) and _real_isinstance(b, _real_int) and b != 0:
            f = Fraction(_real_int(a), _real_int(b))
            if f.denominator & (f.denominator - 1) == 0:
                return a / b
            return SymReal(z3.RealVal(f))
        return a / b
    x, y = zreal(a), zreal(b)
    if x is None or y is None:
        return NotImplemented
    y = z3.simplify(y)
    if z3.is_rational_value(y):
        if y.numerator_as_long() == 0:
            raise ZeroDivisionError("division by zero")
    else:
        if eng().branch(y == 0):
            raise ZeroDivisionError("division by zero")
        if _real_isinstance(a, SymInt) and _real_isinstance(b, SymInt):
            eng().near(a.z(), b.z())
    return mkreal(x / y)


def sym_floordiv(a, b):
    if _real_isinstance(a, (SymReal, _real_float)) or _real_isinstance(b, (SymReal, _real_float)):
        q = sym_div(a, b)
        return SymReal(z3.ToReal(z3.ToInt(zreal(q))))
    x, y = zint(a), zint(b)
    if x is None or y is None:
        return NotImplemented
    if z3.is_int_value(y):
        d = y.as_long()
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if d > 0:
            return mkint(x / y)
        return mkint((-x) / z3.IntVal(-d))
    if eng().branch(y == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if eng().branch(y > 0):
        return mkint(x / y)
    return mkint((-x) / (-y))


def sym_mod(a, b):
    if _real_isinstance(a, (SymReal, _real_float)) or _real_isinstance(b, (SymReal, _real_float)):
        q = sym_floordiv(a, b)
        return a - q * b
    x, y = zint(a), zint(b)
    if x is None or y is None:
        return NotImplemented
    q = sym_floordiv(a, b)
    return a - q * b


class SymReal(object):
    """Python float treated as an exact real."""
    __slots__ = ("e",)
    _symx = True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f):
        r = zreal(o)
        if r is None:
            return NotImplemented
        return mkreal(f(self.e, r))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return sym_div(self, o)
    def __rtruediv__(self, o): return sym_div(o, self)
    def __floordiv__(self, o): return sym_floordiv(self, o)
    def __rfloordiv__(self, o): return sym_floordiv(o, self)
    def __mod__(self, o): return sym_mod(self, o)
    def __rmod__(self, o): return sym_mod(o, self)
    def __neg__(self): return mkreal(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkreal(z3.If(self.e < 0, -self.e, self.e))

    def __pow__(self, o, m=None):
        if _real_isinstance(o, _real_int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("real pow")

    def _cmp(self, o, f):
        r = zreal(o)
        if r is None:
            if _real_isinstance(o, _real_float):
                return f(0.0, o)
            return None
        return mkbool(f(self.e, r))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return (False if (o is None or _real_isinstance(o, (_real_str, SymStr))) else NotImplemented) if r is None else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return NotImplemented if r is None else r

    def __bool__(self): return eng().branch(self.e != 0)

    def trunc(self):
        fl = z3.ToInt(self.e)
        return mkint(z3.If(self.e >= 0, fl, -z3.ToInt(-self.e)))

    def __int__(self):
        r = self.trunc()
        return r if _real_isinstance(r, _real_int) else r.__index__()

    def __trunc__(self): return self.trunc()
    def __floor__(self): return mkint(z3.ToInt(self.e))
    def __ceil__(self): return mkint(-z3.ToInt(-self.e))

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __round__(self, n=None):
        # banker's rounding on the exact value
        k = 0 if n is None else _real_int(n)
        sc = z3.RealVal(Fraction(10) ** k)
        y = self.e * sc
        fl = z3.ToInt(y)
        fr = y - z3.ToReal(fl)
        half = z3.RealVal(Fraction(1, 2))
        up = z3.Or(fr > half, z3.And(fr == half, fl % 2 == 1))
        r = z3.If(up, fl + 1, fl)
        if n is None:
            return mkint(r)
        return mkreal(z3.ToReal(r) / sc)

    def __float__(self):
        return frac_of(eng().pin(self.e, "native float(real)")).__float__()

    def __hash__(self):
        return hash(_real_float(self))

    def __str__(self):
        return _real_str(_real_float(self))

    def __repr__(self):
        return "SymReal(%s)" % self.e

    def __format__(self, spec):
        return format(_real_float(self), spec)


def frac_of(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


# ----------------------------------------------------------------- strings
class Num(object):
    """Canonical decimal rendering of an integer term."""
    __slots__ = ("e",)

    def __deepcopy__(self, memo):
        return self

    def __init__(self, e):
        self.e = e


class Flt(object):
    """Rendering of a real term with a printf-style conversion (e.g. 'f', '.2f', 'r')."""
    __slots__ = ("e", "spec")

    def __init__(self, e, spec):
        self.e = e
        self.spec = spec


class Opq(object):
    """Opaque embedded payload (e.g. a JSON document); esc: only ASCII characters are in its text."""
    __slots__ = ("obj", "kind", "esc")

    def __init__(self, kind, obj, esc=False):
        self.esc = esc
        self.kind = kind
        self.obj = obj


def _ord(c):
    return c if _real_isinstance(c, z3.ExprRef) else z3.IntVal(ord(c))


def mkstr(segs):
    """Normalise; returns a real str when fully concrete."""
    out = []
    for s in segs:
        if _real_isinstance(s, _real_str):
            if not s:
                continue
            if out and _real_isinstance(out[-1], _real_str):
                out[-1] = out[-1] + s
            else:
                out.append(s)
        elif _real_isinstance(s, z3.ExprRef):
            if z3.is_int_value(s):
                c = chr(s.as_long())
                if out and _real_isinstance(out[-1], _real_str):
                    out[-1] = out[-1] + c
                else:
                    out.append(c)
            else:
                out.append(s)
        elif _real_isinstance(s, Num):
            e = z3.simplify(s.e)
            if z3.is_int_value(e):
                t = _real_str(e.as_long())
                if out and _real_isinstance(out[-1], _real_str):
                    out[-1] = out[-1] + t
                else:
                    out.append(t)
            else:
                out.append(Num(e))
        else:
            out.append(s)
    if not out:
        return ""
    if _real_len(out) == 1 and _real_isinstance(out[0], _real_str):
        return out[0]
    return SymStr(tuple(out))


def segs_of(x):
    if _real_isinstance(x, SymStr):
        return list(x.segs)
    if _real_isinstance(x, _real_str):
        return [_real_str(x)] if x else []
    return None


def _fixed(segs):
    """List of single chars (str of length 1 or z3 expr) or None if not fixed-length."""
    out = []
    for s in segs:
        if _real_isinstance(s, _real_str):
            out.extend(s)
        elif _real_isinstance(s, z3.ExprRef):
            out.append(s)
        else:
            return None
    return out


def _ch_eq(a, b):
    if _real_isinstance(a, _real_str) and _real_isinstance(b, _real_str):
        return z3.BoolVal(a == b)
    return _ord(a) == _ord(b)


def _canon_int(s):
    if not s:
        return None
    t = s[1:] if s[0] == "-" else s
    if not t.isdigit() or not t.isascii():
        return None
    if _real_len(t) > 1 and t[0] == "0":
        return None
    if t == "0" and s[0] == "-":
        return None
    return _real_int(s)


def _str_eq_z(a, b):
    """z3 condition for equality of two segment lists (or raises Unsupported)."""
    fa, fb = _fixed(a), _fixed(b)
    if fa is not None and fb is not None:
        if _real_len(fa) != _real_len(fb):
            return z3.BoolVal(False)
        cs = []
        for x, y in zip(fa, fb):
            c = _ch_eq(x, y)
            if z3.is_false(c):
                return z3.BoolVal(False)
            cs.append(c)
        return z3.And(cs) if cs else z3.BoolVal(True)
    # variable-width segments: align left to right
    a, b = list(a), list(b)
    cs = []
    while a or b:
        if not a or not b:
            rest = a or b
            # every segment renders at least one character
            return z3.BoolVal(False)
        x, y = a[0], b[0]
        if _real_isinstance(x, Opq) or _real_isinstance(y, Opq):
            if _real_isinstance(x, Opq) and _real_isinstance(y, Opq) and x is y:
                a.pop(0); b.pop(0)
                continue
            raise Unsupported("compare opaque text")
        if _real_isinstance(x, Num) and _real_isinstance(y, Num):
            # both delimited the same way? require next segment not to start with a digit
            if _nodigit_next(a) and _nodigit_next(b):
                cs.append(x.e == y.e)
                a.pop(0); b.pop(0)
                continue
            raise Unsupported("ambiguous number boundary")
        if _real_isinstance(x, Flt) and _real_isinstance(y, Flt):
            if x.spec == y.spec and _nodigit_next(a) and _nodigit_next(b):
                if x.spec in ("r", "s"):
                    cs.append(x.e == y.e)
                else:
                    cs.append(flt_round(x.e, x.spec) == flt_round(y.e, y.spec))
                a.pop(0); b.pop(0)
                continue
            raise Unsupported("compare float formats")
        if _real_isinstance(x, (Num, Flt)) and not _real_isinstance(y, (Num, Flt)):
            a, b = b, a
            x, y = y, x
        if _real_isinstance(y, Num):
            # x is literal/char : take the maximal [-]digits prefix if literal
            if _real_isinstance(x, _real_str):
                n = 0
                if x[0] == "-":
                    n = 1
                while n < _real_len(x) and x[n].isdigit():
                    n += 1
                if n == _real_len(x) and _real_len(a) > 1:
                    if not (_real_isinstance(a[1], _real_str)):
                        raise Unsupported("number vs symbolic chars")
                v = _canon_int(x[:n])
                if v is None:
                    return z3.BoolVal(False)
                if not _nodigit_next(b):
                    raise Unsupported("ambiguous number boundary")
                cs.append(y.e == v)
                b.pop(0)
                rest = x[n:]
                if rest:
                    a[0] = rest
                else:
                    a.pop(0)
                continue
            fa = _fixed(a)
            if fa is not None and _real_len(b) == 1 and _real_len(fa) <= 4:
                # a short char string equals the decimal rendering of y
                cs.append(_chars_are_decimal(fa, y.e))
                a, b = [], []
                continue
            raise Unsupported("number vs symbolic chars")
        if _real_isinstance(y, Flt):
            if _real_isinstance(x, _real_str):
                import re
                m = re.match(r"-?\d+(\.\d+)?(e[+-]?\d+)?", x)
                if not m:
                    return z3.BoolVal(False)
                raise Unsupported("compare float text with literal")
            raise Unsupported("compare float text with chars")
        # literal / char on both sides
        cx = x[0] if _real_isinstance(x, _real_str) else x
        cy = y[0] if _real_isinstance(y, _real_str) else y
        c = _ch_eq(cx, cy)
        if z3.is_false(c):
            return z3.BoolVal(False)
        cs.append(c)
        for lst, v in ((a, x), (b, y)):
            if _real_isinstance(v, _real_str) and _real_len(v) > 1:
                lst[0] = v[1:]
            else:
                lst.pop(0)
    return z3.And(cs) if cs else z3.BoolVal(True)


def _chars_are_decimal(chars, num):
    digs = [_ord(c) for c in chars]
    n = _real_len(digs)

    def val(ds):
        t = z3.IntVal(0)
        for d in ds:
            t = t * 10 + (d - 48)
        return t

    def isd(ds):
        return z3.And([z3.And(d >= 48, d <= 57) for d in ds])
    pos = z3.And(isd(digs), num == val(digs))
    if n > 1:
        pos = z3.And(pos, digs[0] != 48)
    if n >= 2:
        ng = digs[1:]
        neg = z3.And(digs[0] == 45, isd(ng), ng[0] != 48, num == -val(ng))
        return z3.Or(pos, neg)
    return pos


def _nodigit_next(lst):
    if _real_len(lst) == 1:
        return True
    n = lst[1]
    if _real_isinstance(n, _real_str):
        return not (n[0].isdigit() or n[0] in ".eE")
    return False


def flt_round(e, spec):
    """Real value denoted by rendering e with printf spec like 'f', '.2f'."""
    k = flt_digits(spec)
    if k is None:
        return e
    sc = z3.RealVal(Fraction(10) ** k)
    y = e * sc
    fl = z3.ToInt(y)
    fr = y - z3.ToReal(fl)
    half = z3.RealVal(Fraction(1, 2))
    up = z3.Or(fr > half, z3.And(fr == half, fl % 2 == 1))
    return z3.ToReal(z3.If(up, fl + 1, fl)) / sc


def flt_digits(spec):
    if spec in ("r", "s"):
        return None
    if spec == "f":
        return 6
    if spec.startswith(".") and spec.endswith("f"):
        return _real_int(spec[1:-1])
    raise Unsupported("float format " + spec)


_WS = " \t\n\r\x0b\x0c"


def _in_set_z(c, chars):
    o = _ord(c)
    return z3.Or([o == ord(x) for x in chars]) if chars else z3.BoolVal(False)


_EQ_MEMO = {}


class SymStr(object):
    __slots__ = ("segs",)
    _symx = True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, segs):
        self.segs = segs

    # ---- basics
    def chars(self):
        """Single characters, realising variable-width segments if needed."""
        f = _fixed(self.segs)
        if f is not None:
            return f
        out = []
        for s in self.segs:
            if _real_isinstance(s, _real_str):
                out.extend(s)
            elif _real_isinstance(s, z3.ExprRef):
                out.append(s)
            elif _real_isinstance(s, Num):
                out.extend(_real_str(eng().pin(s.e, "text of a number").as_long()))
            elif _real_isinstance(s, Flt):
                v = _real_float(frac_of(eng().pin(s.e, "text of a real")))
                out.extend(_real_str(v) if s.spec in ("r", "s") else ("%" + s.spec) % v)
            else:
                raise Unsupported("characters of opaque text")
        return out

    def realise(self, why="native str"):
        out = []
        for c in self.chars():
            if _real_isinstance(c, _real_str):
                out.append(c)
            else:
                out.append(chr(eng().pin(c, why).as_long()))
        return "".join(out)

    def __str__(self):
        return self.realise("native str()")

    def __repr__(self):
        return "SymStr(%r)" % (self.segs,)

    def __format__(self, spec):
        return format(self.realise("native format()"), spec)

    def __hash__(self):
        return hash(self.realise("native hash()"))

    def __bool__(self):
        return True     # never empty: every segment renders >= 1 char

    def __len__(self):
        f = _fixed(self.segs)
        if f is not None:
            return _real_len(f)
        return _real_len(self.chars())

    def __iter__(self):
        for c in self.chars():
            yield mkstr([c])

    # ---- comparison
    def eq_z(self, o):
        s = segs_of(o)
        if s is None:
            return None
        try:
            return _str_eq_z(list(self.segs), s)
        except Unsupported:
            # realise the variable-width parts, then compare characters
            a = self.chars()
            b = o.chars() if _real_isinstance(o, SymStr) else list(o)
            return _str_eq_z(a, b)

    def _key(self):
        """Identity of a fixed-length rope (stable across paths), or None."""
        k = []
        for s in self.segs:
            if _real_isinstance(s, _real_str):
                k.append(s)
            elif _real_isinstance(s, z3.ExprRef):
                k.append(s.get_id())
            else:
                return None
        return tuple(k)

    def __eq__(self, o):
        mk = None
        if _real_isinstance(o, (_real_str, SymStr)):
            ka = self._key()
            kb = o if _real_isinstance(o, _real_str) else o._key()
            if ka is not None and kb is not None:
                mk = (ka, kb)
                hit = _EQ_MEMO.get(mk)
                if hit is not None:
                    return hit[0]
        r = self.eq_z(o)
        if r is None:
            if o is None or is_num(o) or _real_isinstance(o, (list, tuple, dict)):
                return False
            return NotImplemented
        r = mkbool(r)
        if mk is not None and len(_EQ_MEMO) < 200000:
            _EQ_MEMO[mk] = (r, self.segs, o)      # keeps the expressions (and ids) alive
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sym_not(r)

    def _lex(self, o, strict):
        s = segs_of(o)
        if s is None:
            return NotImplemented
        a, b = self.chars(), (o.chars() if _real_isinstance(o, SymStr) else list(o))
        n = min(_real_len(a), _real_len(b))
        # tail case
        if _real_len(a) < _real_len(b):
            r = z3.BoolVal(True)
        elif _real_len(a) == _real_len(b):
            r = z3.BoolVal(not strict)
        else:
            r = z3.BoolVal(False)
        for i in range(n - 1, -1, -1):
            x, y = _ord(a[i]), _ord(b[i])
            r = z3.Or(x < y, z3.And(x == y, r))
        return mkbool(r)

    def __lt__(self, o): return self._lex(o, True)
    def __le__(self, o): return self._lex(o, False)

    def __gt__(self, o):
        r = self._lex(o, False)
        return r if r is NotImplemented else sym_not(r)

    def __ge__(self, o):
        r = self._lex(o, True)
        return r if r is NotImplemented else sym_not(r)

    # ---- concatenation
    def __add__(self, o):
        s = segs_of(o)
        if s is None:
            return NotImplemented
        return mkstr(list(self.segs) + s)

    def __radd__(self, o):
        s = segs_of(o)
        if s is None:
            return NotImplemented
        return mkstr(s + list(self.segs))

    def __mul__(self, n):
        return mkstr(list(self.segs) * _real_int(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        return str_mod(self, args)

    # ---- element access
    def __getitem__(self, k):
        if _real_isinstance(k, slice) and (k.step in (None, 1)):
            r = self._fast_slice(k)
            if r is not None:
                return r
        cs = self.chars()
        if _real_isinstance(k, slice):
            k = slice(*[None if x is None else _real_int(x) for x in (k.start, k.stop, k.step)])
            return mkstr(cs[k])
        return mkstr([cs[_real_int(k)]])

    def _fast_slice(self, k):
        """Slices that only touch literal text at either end of a variable-width rope."""
        if _fixed(self.segs) is not None:
            return None
        st = 0 if k.start is None else _real_int(k.start)
        en = None if k.stop is None else _real_int(k.stop)
        if st < 0 or (en is not None and en >= 0):
            return None
        segs = list(self.segs)
        while st > 0:
            if not segs:
                return ""
            s = segs[0]
            if _real_isinstance(s, _real_str):
                if _real_len(s) > st:
                    segs[0] = s[st:]
                    st = 0
                else:
                    st -= _real_len(s)
                    segs.pop(0)
            elif _real_isinstance(s, z3.ExprRef):
                st -= 1
                segs.pop(0)
            else:
                return None
        n = -en if en is not None else 0
        while n > 0:
            if not segs:
                return ""
            s = segs[-1]
            if _real_isinstance(s, _real_str):
                if _real_len(s) > n:
                    segs[-1] = s[:-n]
                    n = 0
                else:
                    n -= _real_len(s)
                    segs.pop()
            elif _real_isinstance(s, z3.ExprRef):
                n -= 1
                segs.pop()
            else:
                return None
        return mkstr(segs)

    def __contains__(self, o):
        s = segs_of(o)
        if s is None:
            raise TypeError("'in <string>' requires string as left operand")
        return _real_bool(self.contains(o))

    def contains(self, o):
        a = self.chars()
        b = o.chars() if _real_isinstance(o, SymStr) else list(o)
        if not b:
            return True
        cs = []
        for i in range(_real_len(a) - _real_len(b) + 1):
            cs.append(z3.And([_ch_eq(x, y) for x, y in zip(a[i:], b)]))
        return mkbool(z3.Or(cs)) if cs else False

    def startswith(self, p, *rng):
        if _real_isinstance(p, tuple):
            return any([self.startswith(x, *rng) for x in p])
        if rng:
            return sym_startswith(self[slice(*rng)], p)
        pl = _real_len(p)
        # avoid realising trailing numbers
        pre = []
        for s in self.segs:
            if _real_len(pre) >= pl:
                break
            if _real_isinstance(s, _real_str):
                pre.extend(s)
            elif _real_isinstance(s, z3.ExprRef):
                pre.append(s)
            else:
                pre = self.chars()
                break
        if _real_len(pre) < pl:
            return False
        b = p.chars() if _real_isinstance(p, SymStr) else list(p)
        return mkbool(z3.And([_ch_eq(x, y) for x, y in zip(pre, b)] + [z3.BoolVal(True)]))

    def endswith(self, p, *rng):
        if _real_isinstance(p, tuple):
            return any([self.endswith(x, *rng) for x in p])
        cs = self.chars()
        b = p.chars() if _real_isinstance(p, SymStr) else list(p)
        if _real_len(b) > _real_len(cs):
            return False
        if not b:
            return True
        return mkbool(z3.And([_ch_eq(x, y) for x, y in zip(cs[-_real_len(b):], b)]))

    def find(self, sub, start=0, end=None):
        cs = self.chars()
        b = sub.chars() if _real_isinstance(sub, SymStr) else list(sub)
        n = _real_len(cs) if end is None else min(end, _real_len(cs))
        for i in range(start, n - _real_len(b) + 1):
            if eng().branch(z3.And([_ch_eq(x, y) for x, y in zip(cs[i:], b)] + [z3.BoolVal(True)])):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        cs = self.chars()
        b = sub.chars() if _real_isinstance(sub, SymStr) else list(sub)
        n = _real_len(cs) if end is None else min(end, _real_len(cs))
        for i in range(n - _real_len(b), start - 1, -1):
            if eng().branch(z3.And([_ch_eq(x, y) for x, y in zip(cs[i:], b)] + [z3.BoolVal(True)])):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, *a):
        return _real_len(self.split(sub)) - 1

    def split(self, sep=None, maxsplit=-1):
        if sep is not None and _fixed(self.segs) is None and _real_isinstance(sep, _real_str) \
                and _real_len(sep) == 1 and not sep.isdigit() and sep not in "-.e+":
            return self._rope_split(sep, maxsplit)
        cs = self.chars()
        out = []
        if sep is None:
            word = []
            i = 0
            while i < _real_len(cs):
                if eng().branch(_in_set_z(cs[i], _WS)):
                    if word:
                        out.append(mkstr(word))
                        word = []
                        if maxsplit >= 0 and _real_len(out) >= maxsplit:
                            rest = cs[i + 1:]
                            r = mkstr(rest)
                            r = r.lstrip() if r else ""
                            if _real_len(r):
                                out.append(r)
                            return out
                else:
                    word.append(cs[i])
                i += 1
            if word:
                out.append(mkstr(word))
            return out
        b = sep.chars() if _real_isinstance(sep, SymStr) else list(sep)
        if not b:
            raise ValueError("empty separator")
        word = []
        i = 0
        while i < _real_len(cs):
            if (maxsplit < 0 or _real_len(out) < maxsplit) and i + _real_len(b) <= _real_len(cs) and \
                    eng().branch(z3.And([_ch_eq(x, y) for x, y in zip(cs[i:], b)])):
                out.append(mkstr(word))
                word = []
                i += _real_len(b)
            else:
                word.append(cs[i])
                i += 1
        out.append(mkstr(word))
        return out

    def _rope_split(self, sep, maxsplit=-1):
        out, cur = [], []
        for s in self.segs:
            if _real_isinstance(s, _real_str):
                parts = s.split(sep)
                for j, p in enumerate(parts):
                    if j > 0:
                        if maxsplit >= 0 and _real_len(out) >= maxsplit:
                            cur.append(sep)
                        else:
                            out.append(mkstr(cur))
                            cur = []
                    if p:
                        cur.append(p)
            elif _real_isinstance(s, z3.ExprRef):
                if (maxsplit < 0 or _real_len(out) < maxsplit) and eng().branch(s == ord(sep)):
                    out.append(mkstr(cur))
                    cur = []
                else:
                    cur.append(s)
            else:
                cur.append(s)
        out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit(None, n)")
        out = []
        rest = self
        while _real_len(out) < maxsplit and _real_len(rest):
            i = rest.rfind(sep)
            if i < 0:
                break
            out.insert(0, rest[i + _real_len(sep):])
            rest = rest[:i]
        out.insert(0, rest)
        return out

    def splitlines(self, keepends=False):
        parts = self.split("\n")
        if _real_len(parts[-1]) == 0:
            parts.pop()
            if keepends:
                return [p + "\n" for p in parts]
            return parts
        if keepends:
            return [p + "\n" for p in parts[:-1]] + [parts[-1]]
        return parts

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + _real_len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + _real_len(sep):])

    def _strip(self, chars, left, right):
        if chars is None:
            chars = _WS
        elif _real_isinstance(chars, SymStr):
            chars = chars.realise("strip set")
        segs = list(self.segs)

        def step(idx):
            while segs:
                s = segs[idx]
                if _real_isinstance(s, _real_str):
                    t = s.lstrip(chars) if idx == 0 else s.rstrip(chars)
                    if t:
                        segs[idx] = t
                        return
                    segs.pop(idx)
                elif _real_isinstance(s, z3.ExprRef):
                    if eng().branch(_in_set_z(s, chars)):
                        segs.pop(idx)
                    else:
                        return
                else:
                    if any(c in "0123456789-.e+" for c in chars):
                        raise Unsupported("strip digits of a number")
                    return
        if left:
            step(0)
        if right:
            step(-1)
        return mkstr(segs)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def removeprefix(self, p):
        if self.startswith(p):
            return self[_real_len(p):]
        return self

    def removesuffix(self, p):
        if p and self.endswith(p):
            return self[:-_real_len(p)]
        return self

    def _map(self, litf, zf):
        out = []
        for s in self.segs:
            if _real_isinstance(s, _real_str):
                out.append(litf(s))
            elif _real_isinstance(s, z3.ExprRef):
                out.append(z3.simplify(zf(s)))
            elif _real_isinstance(s, (Num, Flt)):
                out.append(s)
            else:
                raise Unsupported("map opaque")
        return mkstr(out)

    def lower(self):
        return self._map(lambda t: t.lower(), lambda c: z3.If(z3.And(c >= 65, c <= 90), c + 32, c))
    casefold = lower

    def upper(self):
        return self._map(lambda t: t.upper(), lambda c: z3.If(z3.And(c >= 97, c <= 122), c - 32, c))

    def swapcase(self):
        return self._map(lambda t: t.swapcase(), lambda c: z3.If(
            z3.And(c >= 97, c <= 122), c - 32, z3.If(z3.And(c >= 65, c <= 90), c + 32, c)))

    def capitalize(self):
        cs = self.chars()
        return mkstr([cs[0]]).upper() + (mkstr(cs[1:]).lower() if _real_len(cs) > 1 else "")

    def title(self):
        raise Unsupported("str.title")

    def replace(self, old, new, count=-1):
        if _fixed(self.segs) is None and _real_isinstance(old, _real_str) and old and \
                not any(c in "0123456789-.e+" for c in old):
            if _real_len(old) == 1 and count < 0:
                parts = self._rope_split(old)
                return str_join(new, parts)
        ob = old.chars() if _real_isinstance(old, SymStr) else list(old)
        if not ob:
            raise Unsupported("replace empty")
        return str_join(new, self.split(old, count))

    def translate(self, table):
        out = []
        for c in self.chars():
            if _real_isinstance(c, _real_str):
                out.append(c.translate(table))
                continue
            rep = None
            for k, v in table.items():
                if eng().branch(c == k):
                    rep = v
                    break
            else:
                out.append(c)
                continue
            if rep is None:
                continue
            out.append(chr(rep) if _real_isinstance(rep, _real_int) else rep)
        return mkstr(out)

    def join(self, it):
        return str_join(self, it)

    def format(self, *a, **k):
        raise Unsupported("symbolic format string")

    def encode(self, encoding="utf-8", errors="strict"):
        e = norm_enc(encoding)
        if e in ("ascii", "iso8859-1"):
            if errors != "strict":
                return self.realise("encode").encode(encoding, errors)
            if has_above(self, 127 if e == "ascii" else 255):
                raise UnicodeEncodeError(e, "?", 0, 1, "character not in the encoding")
            return EncBytes(self, e)
        if e in ("utf-8", "utf-8-sig", "utf-16"):
            return EncBytes(self, e)
        return self.realise("encode").encode(encoding, errors)

    def _all(self, pred_lit, pred_z):
        cs = self.chars()
        return mkbool(z3.And([z3.BoolVal(pred_lit(c)) if _real_isinstance(c, _real_str) else pred_z(c) for c in cs]))

    def isdigit(self):
        return self._all(lambda c: c.isdigit(), lambda c: z3.And(c >= 48, c <= 57))
    isdecimal = isdigit
    isnumeric = isdigit

    def isspace(self):
        return self._all(lambda c: c.isspace(), lambda c: _in_set_z(c, _WS))

    def isalpha(self):
        return self._all(lambda c: c.isalpha(), lambda c: z3.Or(
            z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)))

    def isalnum(self):
        return self._all(lambda c: c.isalnum(), lambda c: z3.Or(
            z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122)))

    def isascii(self):
        return self._all(lambda c: c.isascii(), lambda c: c < 128)

    def isprintable(self):
        return self._all(lambda c: c.isprintable(), lambda c: z3.And(c >= 32, c < 127))

    def isidentifier(self):
        cs = self.chars()

        def z(c, first):
            o = _ord(c)
            alpha = z3.Or(z3.And(o >= 65, o <= 90), z3.And(o >= 97, o <= 122), o == 95)
            return alpha if first else z3.Or(alpha, z3.And(o >= 48, o <= 57))
        return mkbool(z3.And([z(c, i == 0) for i, c in enumerate(cs)]))

    def isupper(self):
        raise Unsupported("isupper")

    def islower(self):
        raise Unsupported("islower")

    def ljust(self, w, fill=" "):
        n = _real_len(self)
        return self + fill * max(0, _real_int(w) - n)

    def rjust(self, w, fill=" "):
        n = _real_len(self)
        return fill * max(0, _real_int(w) - n) + self

    def zfill(self, w):
        return self.rjust(w, "0")

    def expandtabs(self, n=8):
        return self


def sym_startswith(s, p):
    return s.startswith(p)


def str_join(sep, it):
    items = list(it)
    out = []
    ss = segs_of(sep)
    for i, x in enumerate(items):
        xs = segs_of(x)
        if xs is None:
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))
        if i:
            out.extend(ss)
        out.extend(xs)
    return mkstr(out)


# ----------------------------------------------------------------- conversions
def sym_str(x="", *a):
    if a:
        return _real_str(x, *a)
    if _real_isinstance(x, SymStr):
        return x
    if _real_isinstance(x, SymInt):
        return mkstr([Num(x.z())])
    if _real_isinstance(x, SymReal):
        return mkstr([Flt(x.e, "r")])
    if _real_isinstance(x, SymBool):
        return "True" if x else "False"
    if _real_isinstance(x, Exception) and _real_len(x.args) == 1 and type(x).__str__ is not None:
        if _real_isinstance(x.args[0], SymStr):
            return x.args[0]
    m = getattr(type(x), "__str__", None)
    if m is not None and m is not object.__str__ and hasattr(m, "__code__"):
        r = m(x)
        if _real_isinstance(r, (SymStr, _real_str)):
            return r
    if _real_isinstance(x, (list, tuple)) and any(is_sym(y) for y in x):
        parts = [sym_repr(y) for y in x]
        body = str_join(", ", parts)
        return ("[" + body + "]") if _real_isinstance(x, list) else ("(" + body + ")")
    if _real_isinstance(x, SymDict):
        return sym_repr(x)
    return _real_str(x)


def sym_repr(x):
    if _real_isinstance(x, SymStr):
        return "'" + x + "'"
    if _real_isinstance(x, (SymInt, SymReal, SymBool)):
        return sym_str(x)
    if _real_isinstance(x, SymDict):
        return "{" + str_join(", ", [sym_repr(k) + ": " + sym_repr(v) for k, v in x.items()]) + "}"
    return repr(x)


def parse_int(x, base=10):
    """int() of symbolic text."""
    if base != 10:
        return _real_int(x.realise("int base"), base)
    s = x._strip(None, True, True)
    if _real_isinstance(s, _real_str):
        return _real_int(s)
    if _real_len(s.segs) == 1 and _real_isinstance(s.segs[0], Num):
        return mkint(s.segs[0].e)
    if _real_len(s.segs) == 2 and s.segs[0] == "+" and _real_isinstance(s.segs[1], Num):
        return mkint(s.segs[1].e)
    if any(_real_isinstance(t, Flt) for t in s.segs):
        raise ValueError("invalid literal for int()")
    if any(_real_isinstance(t, Opq) for t in s.segs):
        raise ValueError("invalid literal for int()")
    cs = s.chars()
    neg = False
    if eng().branch(_ord(cs[0]) == 45):
        neg = True
        cs = cs[1:]
    elif eng().branch(_ord(cs[0]) == 43):
        cs = cs[1:]
    if not cs:
        raise ValueError("invalid literal for int()")
    t = z3.IntVal(0)
    for c in cs:
        o = _ord(c)
        if not eng().branch(z3.And(o >= 48, o <= 57)):
            raise ValueError("invalid literal for int() with base 10")
        t = t * 10 + (o - 48)
    return mkint(-t if neg else t)


def binary64(z):
    """Integer-valued conversion to a double: exact up to 2**53, rounded half-even in the next binade; larger
    values are outside the bound."""
    lim = 2 ** 53
    if z3.is_int_value(z):
        return mkreal(z3.RealVal(_real_int(_real_float(z.as_long()))))
    if eng().branch(z3.And(z >= -lim, z <= lim)):
        return SymReal(z3.ToReal(z))
    eng().assume(z3.And(z >= -2 * lim, z <= 2 * lim))
    h = z / 2
    return SymReal(z3.ToReal(z3.If(z % 2 == 0, z, z3.If(h % 2 == 0, h, h + 1) * 2)))


def real_trunc(r):
    """int() of a real: magnitudes above 2**53 are even numbers"""
    lim = 2 ** 53
    e = r.e
    if z3.is_rational_value(e) or eng().branch(z3.And(e >= -lim, e <= lim)):
        return r.trunc()
    eng().assume(z3.And(e >= -2 * lim, e <= 2 * lim))
    return mkint(zint(SymReal(e / 2).__round__()) * 2)


def sym_int(x=0, *a):
    if a:
        if _real_isinstance(x, SymStr):
            return parse_int(x, *a)
        return _real_int(x, *a)
    if _real_isinstance(x, SymInt):
        return x
    if _real_isinstance(x, SymBool):
        return x._i()
    if _real_isinstance(x, SymReal):
        return real_trunc(x)
    if _real_isinstance(x, SymStr):
        return parse_int(x)
    m = getattr(type(x), "__int__", None)
    if m is not None and hasattr(m, "__code__"):
        return m(x)
    return _real_int(x)


def sym_float(x=0.0):
    if _real_isinstance(x, SymReal):
        return x
    if _real_isinstance(x, SymInt):
        return binary64(zint(x))
    if _real_isinstance(x, SymBool):
        return x._i() * 1.0 if not _real_isinstance(x._i(), _real_int) else _real_float(x._i())
    if _real_isinstance(x, SymStr):
        s = x._strip(None, True, True)
        if _real_isinstance(s, _real_str):
            return _real_float(s)
        if _real_len(s.segs) == 1:
            g = s.segs[0]
            if _real_isinstance(g, Flt):
                return mkreal(flt_round(g.e, g.spec))
            if _real_isinstance(g, Num):
                return binary64(g.e)
        if _real_len(s.segs) == 2 and s.segs[0] == "-" and _real_isinstance(s.segs[1], Num):
            return -binary64(s.segs[1].e)
        return _real_float(s.realise("float()"))
    m = getattr(type(x), "__float__", None)
    if m is not None and hasattr(m, "__code__"):
        return m(x)
    return _real_float(x)


# ----------------------------------------------------------------- formatting
import re as _re
_FMT = _re.compile(r"%(\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>[diouxXeEfFgGcrsa%])")


def _pad(s, flags, width):
    if not width:
        return s
    w = _real_int(width)
    n = _real_len(s)
    if n >= w:
        return s
    if "-" in flags:
        return s + " " * (w - n)
    return " " * (w - n) + s


def _fmt_one(conv, flags, width, prec, v):
    if not _needs_sym(v):
        spec = "%" + flags + (width or "") + ("." + prec if prec is not None else "") + conv
        return spec % (v,)
    if conv in "sra":
        s = sym_str(v) if conv == "s" else sym_repr(v)
        if prec is not None:
            s = s[:_real_int(prec)]
        return _pad(s, flags, width)
    if conv in "diu":
        if _real_isinstance(v, SymReal):
            v = v.trunc()
        if _real_isinstance(v, SymStr):
            raise TypeError("%d format: a real number is required, not str")
        if _real_isinstance(v, SymBool):
            v = v._i()
        if flags.replace("-", "") or (width and width != "0") or prec is not None:
            if not flags.replace("-", "") and prec is None:
                return _pad(sym_str(v), flags, width)
            spec = "%" + flags + (width or "") + ("." + prec if prec is not None else "") + "d"
            return spec % pin_int(v, "%d flags")
        return sym_str(v)
    if conv in "fF":
        if _real_isinstance(v, SymStr):
            raise TypeError("must be real number, not str")
        r = zreal(v)
        if not flags and not width:
            return mkstr([Flt(z3.simplify(r), "f" if prec is None else ".%sf" % prec)])
    if conv in "xXoeEgGcfF":
        spec = "%" + flags + (width or "") + ("." + prec if prec is not None else "") + conv
        if _real_isinstance(v, SymInt):
            return spec % pin_int(v, "%" + conv)
        if _real_isinstance(v, SymReal):
            return spec % _real_float(v)
    raise Unsupported("format %" + conv)


def _needs_sym(v):
    if is_sym(v) or _real_isinstance(v, (SymDict, SymSet)):
        return True
    if _real_isinstance(v, (list, tuple)):
        return any(_needs_sym(y) for y in v)
    if _real_isinstance(v, Exception):
        return any(_needs_sym(y) for y in v.args)
    return hasattr(v, "_symx_str")


def str_mod(fmt, args):
    if _real_isinstance(fmt, SymStr):
        # a symbolic format string: only safe if it contains no '%' in symbolic characters
        out = []
        args_l = list(args) if _real_isinstance(args, tuple) else [args]
        pieces = []
        for s in fmt.segs:
            if _real_isinstance(s, z3.ExprRef):
                if eng().branch(s == 37):
                    return fmt.realise("% in symbolic format") % args
            if _real_isinstance(s, Opq):
                raise Unsupported("format opaque")
            pieces.append(s)
        pos = [0]
        for s in pieces:
            if _real_isinstance(s, _real_str):
                out.extend(segs_of(_fmt_lit(s, args_l, pos, args)))
            else:
                out.append(s)
        if pos[0] < _real_len(args_l) and not _real_isinstance(args, (dict, SymDict)):
            raise TypeError("not all arguments converted during string formatting")
        return mkstr(out)
    args_l = list(args) if _real_isinstance(args, tuple) else [args]
    if not any(_needs_sym(a) for a in args_l):
        return fmt % args
    pos = [0]
    r = _fmt_lit(fmt, args_l, pos, args)
    if pos[0] < _real_len(args_l) and not _real_isinstance(args, (dict, SymDict)):
        raise TypeError("not all arguments converted during string formatting")
    return r


def _fmt_lit(fmt, args_l, pos, args):
    out = []
    i = 0
    while i < _real_len(fmt):
        j = fmt.find("%", i)
        if j < 0:
            out.append(fmt[i:])
            break
        out.append(fmt[i:j])
        m = _FMT.match(fmt, j)
        if not m:
            raise ValueError("unsupported format character")
        i = m.end()
        if m.group("conv") == "%":
            out.append("%")
            continue

        def nxt():
            if pos[0] >= _real_len(args_l):
                raise TypeError("not enough arguments for format string")
            v = args_l[pos[0]]
            pos[0] += 1
            return v
        w, p = m.group("width"), m.group("prec")
        if m.group("key") is not None:
            v = args[m.group("key")]
        else:
            if w == "*":
                w = _real_str(_real_int(nxt()))
            if p == "*":
                p = _real_str(_real_int(nxt()))
            v = nxt()
        s = _fmt_one(m.group("conv"), m.group("flags") or "", w, p, v)
        out.extend(segs_of(s))
    return mkstr(out)


_SPEC = _re.compile(r"^(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?(?P<comma>[,_])?(?:\.(?P<prec>\d+))?(?P<type>[bcdeEfFgGnosxX%])?$")


def sym_format(v, spec=""):
    if not _needs_sym(v) and not _real_isinstance(spec, SymStr):
        return format(v, spec)
    if _real_isinstance(spec, SymStr):
        spec = spec.realise("format spec")
    if hasattr(v, "_symx_format"):
        return v._symx_format(spec)
    if spec == "":
        return sym_str(v)
    m = _SPEC.match(spec)
    if not m:
        raise Unsupported("format spec " + spec)
    t = m.group("type")
    if _real_isinstance(v, SymStr):
        if t not in (None, "s"):
            raise ValueError("Unknown format code '%s' for object of type 'str'" % t)
        s = v
        if m.group("prec"):
            s = s[:_real_int(m.group("prec"))]
        al = m.group("align") or "<"
        fill = m.group("fill") or " "
        if m.group("width"):
            w = _real_int(m.group("width"))
            n = _real_len(s)
            if n < w:
                if al == "<":
                    s = s + fill * (w - n)
                elif al == ">":
                    s = fill * (w - n) + s
                else:
                    raise Unsupported("format align ^")
        return s
    if m.group("width") or m.group("comma") or m.group("zero") or m.group("sign") or m.group("alt"):
        if _real_isinstance(v, SymInt):
            return format(pin_int(v, "format " + spec), spec)
        return format(_real_float(v), spec)
    if _real_isinstance(v, SymBool):
        v = v._i()
    if t in (None, "d") and _real_isinstance(v, (SymInt, _real_int)):
        return sym_str(v)
    if t in ("f", "F"):
        p = m.group("prec")
        return mkstr([Flt(z3.simplify(zreal(v)), "f" if p is None else ".%sf" % p)])
    if _real_isinstance(v, SymInt):
        return format(pin_int(v, "format " + spec), spec)
    return format(_real_float(v), spec)


def str_format(fmt, args, kwargs):
    """'...'.format(...)"""
    if not any(_needs_sym(a) for a in list(args) + list(kwargs.values())):
        return fmt.format(*args, **kwargs)
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = _fmtsplit(field)
        if first == "":
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[_real_int(first)]
        else:
            v = kwargs[first]
        for is_attr, k in rest:
            v = getattr(v, k) if is_attr else v[k]
        if conv == "r":
            v = sym_repr(v)
        elif conv == "s":
            v = sym_str(v)
        if spec and "{" in spec:
            spec = str_format(spec, args[auto:], kwargs)
        out.extend(segs_of(sym_format(v, spec or "")))
    return mkstr(out)


def _fmtsplit(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return _real_str(first), list(rest)


# ----------------------------------------------------------------- equality & containers
def sym_eq(a, b):
    """a == b as SymBool/bool without forking, for scalars, strings, and lists/tuples of them."""
    if a is b:
        return True
    if _real_isinstance(a, (list, tuple)) and _real_isinstance(b, (list, tuple)):
        if _real_len(a) != _real_len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = sym_and(r, sym_eq(x, y))
            if r is False:
                return False
        return r
    r = a == b
    return r


def sym_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return mkbool(z3.And(zbool(a), zbool(b)))


def sym_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return mkbool(z3.Or(zbool(a), zbool(b)))


def sym_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if _real_isinstance(a, (SymReal, _real_float, Fraction)) or _real_isinstance(b, (SymReal, _real_float, Fraction)):
        return mkreal(z3.If(c.e, zreal(a), zreal(b)))
    if _real_isinstance(a, (SymBool, _real_bool)) and _real_isinstance(b, (SymBool, _real_bool)):
        return mkbool(z3.If(c.e, zbool(a), zbool(b)))
    x, y = zint(a), zint(b)
    if x is None or y is None:
        return a if c else b
    return mkint(z3.If(c.e, x, y))


def _key_has_sym(k):
    if is_sym(k):
        return True
    if _real_isinstance(k, tuple):
        return any(_key_has_sym(x) for x in k)
    return False


def key_eq(a, b):
    """Dictionary-key equality; returns a python bool (may fork)."""
    if a is b:
        return True
    r = sym_eq(a, b)
    return _real_bool(r)


class _View(object):
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def __iter__(self):
        n = _real_len(self.d._k)
        ver = self.d._ver
        for i in range(n):
            if self.d._ver != ver:
                raise RuntimeError("dictionary changed size during iteration")
            if self.kind == 0:
                yield self.d._k[i]
            elif self.kind == 1:
                yield self.d._v[i]
            else:
                yield (self.d._k[i], self.d._v[i])
        if self.d._ver != ver:
            raise RuntimeError("dictionary changed size during iteration")

    def __len__(self):
        return _real_len(self.d._k)

    def __contains__(self, x):
        if self.kind == 0:
            return x in self.d
        return any(_real_bool(sym_eq(x, y)) for y in self)

    def __reversed__(self):
        return reversed(list(self))

    def __eq__(self, o):
        return SymSet(self) == o

    def _set(self):
        return SymSet(self)

    def __and__(self, o): return SymSet(self) & o
    def __or__(self, o): return SymSet(self) | o
    def __sub__(self, o): return SymSet(self) - o
    def __xor__(self, o): return SymSet(self) ^ o
    def __rand__(self, o): return SymSet(o) & self
    def __ror__(self, o): return SymSet(o) | self
    def __rsub__(self, o): return SymSet(o) - self

    def isdisjoint(self, o):
        return SymSet(self).isdisjoint(o)

    def __repr__(self):
        return "dict_view(%r)" % (list(self),)


class SymDict(object):
    """Insertion-ordered dictionary whose keys may be symbolic."""

    def __init__(self, *a, **kw):
        self._k = []
        self._v = []
        self._ver = 0
        self._h = {}         # concrete hashable key -> index  (valid while no symbolic keys)
        self._nsym = 0
        if a:
            self.update(a[0])
        if kw:
            self.update(kw)

    def _find(self, k):
        ks = _key_has_sym(k)
        if not ks:
            hash(k)         # unhashable -> TypeError
            i = self._h.get(k)
            if i is not None:
                return i
            if self._nsym == 0:
                return -1
            for i, kk in enumerate(self._k):
                if _key_has_sym(kk) and key_eq(kk, k):
                    return i
            return -1
        for i, kk in enumerate(self._k):
            if key_eq(kk, k):
                return i
        return -1

    def __contains__(self, k):
        return self._find(k) >= 0

    def __getitem__(self, k):
        i = self._find(k)
        if i < 0:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return self._v[i]

    def __setitem__(self, k, v):
        i = self._find(k)
        if i >= 0:
            self._v[i] = v
            return
        self._k.append(k)
        self._v.append(v)
        self._ver += 1
        if _key_has_sym(k):
            self._nsym += 1
        else:
            self._h[k] = _real_len(self._k) - 1

    def _del(self, i):
        self._k.pop(i)
        self._v.pop(i)
        self._ver += 1
        self._h = {}
        self._nsym = 0
        for j, k in enumerate(self._k):
            if _key_has_sym(k):
                self._nsym += 1
            else:
                self._h[k] = j

    def __delitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        self._del(i)

    def get(self, k, d=None):
        i = self._find(k)
        return d if i < 0 else self._v[i]

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i >= 0:
            return self._v[i]
        self[k] = d
        return d

    _NO = object()

    def pop(self, k, d=_NO):
        i = self._find(k)
        if i < 0:
            if d is SymDict._NO:
                raise KeyError(k)
            return d
        v = self._v[i]
        self._del(i)
        return v

    def popitem(self, last=True):
        if not self._k:
            raise KeyError("popitem(): dictionary is empty")
        i = _real_len(self._k) - 1 if last else 0
        r = (self._k[i], self._v[i])
        self._del(i)
        return r

    def move_to_end(self, k, last=True):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        kk, v = self._k[i], self._v[i]
        self._del(i)
        if last:
            self[kk] = v
        else:
            ks, vs = [kk] + self._k, [v] + self._v
            self.clear()
            for a, b in zip(ks, vs):
                self[a] = b

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._k, self._v, self._h, self._nsym = [], [], {}, 0
        self._ver += 1

    def copy(self):
        r = type(self).__new__(type(self))
        r.__dict__.update(self.__dict__)
        r._k, r._v, r._h = list(self._k), list(self._v), dict(self._h)
        return r

    __copy__ = copy

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r

    def keys(self): return _View(self, 0)
    def values(self): return _View(self, 1)
    def items(self): return _View(self, 2)

    def __iter__(self):
        return iter(_View(self, 0))

    def __reversed__(self):
        return reversed(list(self._k))

    def __len__(self):
        return _real_len(self._k)

    def __bool__(self):
        return bool(self._k)

    def __eq__(self, o):
        if not _real_isinstance(o, (SymDict, dict)):
            return NotImplemented
        if _real_len(self) != _real_len(o):
            return False
        for k, v in self.items():
            if k not in o:
                return False
            if not (v == o[k]):
                return False
        return True

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "SymDict(%r)" % (list(zip(self._k, self._v)),)


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        SymDict.__init__(self, *a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


class SymCounter(SymDict):
    def __missing__(self, k):
        return 0

    def __init__(self, it=None, **kw):
        SymDict.__init__(self)
        self.update(it, **kw)

    def update(self, it=None, **kw):
        if it is not None:
            if hasattr(it, "keys"):
                for k in it.keys():
                    self[k] = self[k] + it[k]
            else:
                for k in it:
                    self[k] = self[k] + 1
        for k, v in kw.items():
            self[k] = self[k] + v

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k


class SymSet(object):
    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = True

    def add(self, x): self._d[x] = True

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem(False)[0]

    def clear(self): self._d.clear()
    def copy(self): return SymSet(self)
    def __contains__(self, x): return x in self._d
    def __iter__(self): return iter(self._d)
    def __len__(self): return _real_len(self._d)
    def __bool__(self): return _real_len(self._d) > 0

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def intersection(self, *its):
        r = SymSet()
        for x in self:
            if all(x in SymSet(it) for it in its):
                r.add(x)
        return r

    def difference(self, *its):
        r = SymSet()
        for x in self:
            if not any(x in SymSet(it) for it in its):
                r.add(x)
        return r

    def symmetric_difference(self, o):
        o = SymSet(o)
        return self.difference(o).union(o.difference(self))

    def __or__(self, o): return self.union(o)
    def __and__(self, o): return self.intersection(o)
    def __sub__(self, o): return self.difference(o)
    def __xor__(self, o): return self.symmetric_difference(o)
    def __ror__(self, o): return SymSet(o).union(self)
    def __rand__(self, o): return SymSet(o).intersection(self)
    def __rsub__(self, o): return SymSet(o).difference(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        for x in list(SymSet(o)):
            self.discard(x)
        return self

    def __iand__(self, o):
        r = self.intersection(o)
        self._d = r._d
        return self

    difference_update = __isub__
    intersection_update = __iand__

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return self.issubset(o) and _real_len(self) < _real_len(SymSet(o))
    def __gt__(self, o): return self.issuperset(o) and _real_len(self) > _real_len(SymSet(o))

    def __eq__(self, o):
        if not _real_isinstance(o, (SymSet, set, frozenset, _View)):
            return NotImplemented
        o = SymSet(o)
        return _real_len(self) == _real_len(o) and self.issubset(o)

    __hash__ = None

    def __repr__(self):
        return "SymSet(%r)" % (list(self._d._k),)


def norm_enc(e):
    """canonical name of an encoding"""
    import codecs
    if e is None:
        return "utf-8"
    n = codecs.lookup(e).name
    return {"utf-8-sig": "utf-8-sig", "iso8859-1": "iso8859-1"}.get(n, n)


def _doc_texts(x):
    if _real_isinstance(x, (_real_str, SymStr)):
        yield x
    elif _real_isinstance(x, (dict, SymDict)):
        for k in x.keys():
            yield k
            for t in _doc_texts(x[k]):
                yield t
    elif _real_isinstance(x, (list, tuple)):
        for y in x:
            for t in _doc_texts(y):
                yield t
    elif hasattr(x, "_ch"):
        todo = [x]
        while todo:
            e = todo.pop()
            todo.extend(e._ch)
            for t in (e._text, e._tail):
                if t is not None:
                    yield t
            for v in getattr(e, "attrib", {}).values():
                yield v


def has_above(text, limit):
    """some character of the text is above the limit: bool or SymBool"""
    cs = []
    for g in segs_of(text):
        if _real_isinstance(g, _real_str):
            if any(ord(c) > limit for c in g):
                return True
        elif _real_isinstance(g, z3.ExprRef):
            cs.append(g > limit)
        elif _real_isinstance(g, Opq):
            for t in () if g.esc else _doc_texts(g.obj):
                r = has_above(t, limit)
                if r is True:
                    return True
                if r is not False:
                    cs.append(r.e)
    return mkbool(z3.Or(cs)) if cs else False


def check_decode(text, actual, used, err=True):
    """Reading text stored in encoding `actual` as encoding `used`: the text seen (None: not decodable)."""
    a, u = norm_enc(actual), norm_enc(used)
    if a == u:
        return text
    if a == "utf-8-sig" and u == "utf-8":
        return mkstr(["\ufeff"] + list(segs_of(text)))
    if a == "utf-8" and u == "utf-8-sig":
        return text
    if a.startswith("utf-16") or u.startswith("utf-16"):
        return None
    if a == "utf-8-sig":
        return None
    if not has_above(text, 127):
        return text
    return None


class EncBytes(object):
    """A text with symbolic parts in some encoding."""
    def __init__(self, s, enc="utf-8"):
        self.s = s
        self.enc = enc

    def decode(self, encoding="utf-8", errors="strict"):
        r = check_decode(self.s, self.enc, encoding)
        if r is None:
            raise UnicodeDecodeError(norm_enc(encoding), b"\xe9", 0, 1, "invalid byte")
        return r

    def real(self):
        s = self.s
        return (s.realise("bytes") if _real_isinstance(s, SymStr) else s).encode(self.enc)

    def __bytes__(self):
        return self.real()

    def __len__(self):
        return len(self.real())

    def __getitem__(self, k):
        return self.real()[k]

    def __iter__(self):
        return iter(self.real())

    def __add__(self, o):
        return EncBytes(self.s + o.decode("utf-8"))

    def __radd__(self, o):
        return EncBytes(o.decode("utf-8") + self.s)

    def __eq__(self, o):
        if _real_isinstance(o, EncBytes):
            return sym_eq(self.s, o.s)
        if _real_isinstance(o, (bytes, bytearray)):
            return sym_eq(self.s, bytes(o).decode("utf-8", "surrogateescape"))
        return False

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __hash__(self):
        return hash(self.real())

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self.real(), k)
