"""Proxy values: exact unbounded integers, Booleans, text and byte arrays whose
contents are terms.  They stand in for int, bool, str and bytearray while the
code under test runs."""
import builtins
from . import terms as T
from .engine import cur, Inconclusive

_int = int
_isinstance = isinstance
_len = len
_range = range
_type = type
_str = str

T.DIVNZ[0] = True      # _divmod excludes zero divisors before dividing

# ---------------------------------------------------------------------- Booleans

class SymBool(object):
    __slots__ = ('t',)
    __class__ = property(lambda self: bool)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().decide(self.t)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(_int, name): raise AttributeError(name)
        return getattr(self.i(), name)
    def __floordiv__(self, o): return self.i() // o
    def __mod__(self, o): return self.i() % o
    def __divmod__(self, o): return divmod(self.i(), o)
    def __pow__(self, o): return self.i() ** o
    def __rfloordiv__(self, o): return o // self.i()
    def __rmod__(self, o): return o % self.i()
    def __abs__(self): return self.i()
    def __pos__(self): return self.i()

    def __eq__(self, o):
        if _type(o) is SymBool:
            return mkbool(T.iff(self.t, o.t))
        if o is True or o is False:
            return mkbool(self.t if o else T.bnot_(self.t))
        if _type(o) in (_int, SymInt):
            return self.i() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __hash__(self):
        return hash(bool(self))

    def i(self):
        return mk(T.ite(self.t, T.const(1, 1), T.const(0, 1)), 0, 1)

    def __and__(self, o):
        if _type(o) in (bool, SymBool):
            return mkbool(T.band_(self.t, bt(o)))
        return self.i() & o
    __rand__ = __and__

    def __or__(self, o):
        if _type(o) in (bool, SymBool):
            return mkbool(T.bor_(self.t, bt(o)))
        return self.i() | o
    __ror__ = __or__

    def __xor__(self, o):
        if _type(o) in (bool, SymBool):
            return mkbool(T.bnot_(T.iff(self.t, bt(o))))
        return self.i() ^ o
    __rxor__ = __xor__

    def __add__(self, o): return self.i() + o
    def __radd__(self, o): return o + self.i()
    def __sub__(self, o): return self.i() - o
    def __rsub__(self, o): return o - self.i()
    def __mul__(self, o): return self.i() * o
    def __rmul__(self, o): return self.i() * o
    def __lshift__(self, o): return self.i() << o
    def __rshift__(self, o): return self.i() >> o
    def __rlshift__(self, o): return o << self.i()
    def __rrshift__(self, o): return o >> self.i()
    def __neg__(self): return -self.i()
    def __invert__(self): return ~self.i()
    def __lt__(self, o): return self.i() < o
    def __le__(self, o): return self.i() <= o
    def __gt__(self, o): return self.i() > o
    def __ge__(self, o): return self.i() >= o
    def __int__(self): return _int(bool(self))
    def __index__(self): return _int(bool(self))
    def __repr__(self): return repr(bool(self))

def mkbool(t):
    if t is T.TRUE: return True
    if t is T.FALSE: return False
    return SymBool(t)

def bt(o):
    if _type(o) is SymBool:
        return o.t
    return T.TRUE if o else T.FALSE

def lnot(r):
    if _type(r) is SymBool:
        return mkbool(T.bnot_(r.t))
    return not r

# ---------------------------------------------------------------------- integers

def need(lo, hi):
    """(width, signed) that represents [lo, hi]."""
    if lo >= 0:
        return max(1, hi.bit_length()), False
    return max(hi.bit_length(), (-lo - 1).bit_length()) + 1, True

def mk(t, lo=None, hi=None):
    """Integer from term t (value = unsigned if lo >= 0 else two's complement),
    known to lie in [lo, hi]; t must have the width need(lo, hi)."""
    if t.op == 'c':
        v = t.a[0]
        if lo is not None and lo < 0 and v >> (t.w - 1):
            v -= 1 << t.w
        return v
    if lo is None:
        lo, hi = 0, (1 << t.w) - 1
    if lo >= 0:
        z = T._lz(t)
        if z:
            h2 = (1 << (t.w - z)) - 1
            if h2 < hi:
                hi = h2
            w = max(1, hi.bit_length())
            if w < t.w:
                t = T.ext(t, w - 1, 0)
                if t.op == 'c':
                    return t.a[0]
    else:
        # non-negative after all?
        s = T.ext(t, t.w - 1, t.w - 1)
        if s.op == 'c' and s.a[0] == 0:
            return mk(T.ext(t, t.w - 2, 0), 0, min(hi, (1 << (t.w - 1)) - 1)) if t.w > 1 else 0
    if lo == hi:
        return lo
    w, sg = need(lo, hi)
    if w < t.w:
        t = T.ext(t, w - 1, 0)
        if t.op == 'c':
            return mk(t, lo, hi)
    return SymInt(t, lo, hi)

def tv(x):
    """(term, lo, hi) of an int-like."""
    k = _type(x)
    if k is SymInt:
        return x.t, x.lo, x.hi
    if k is SymBool:
        return T.ite(x.t, T.const(1, 1), T.const(0, 1)), 0, 1
    x = _int(x)
    w, _ = need(x, x)
    return T.const(x, w), x, x

def at(t, lo, w):
    """Extend term (signed iff lo < 0) to width w, or truncate to it."""
    if t.w == w: return t
    if t.w > w: return T.ext(t, w - 1, 0)
    return T.sext(t, w) if lo < 0 else T.zext(t, w)

def intlike(x):
    return _type(x) in _INTS or _isinstance(x, _int)

class SymInt(object):
    __slots__ = ('t', 'lo', 'hi')
    __class__ = property(lambda self: _int)

    def __init__(self, t, lo, hi):
        self.t = t; self.lo = lo; self.hi = hi

    # -- arithmetic
    def _lin(self, o, k):
        if not intlike(o): return NotImplemented
        t2, lo2, hi2 = tv(o)
        if k == 1:
            lo, hi = self.lo + lo2, self.hi + hi2
        else:
            lo, hi = self.lo - hi2, self.hi - lo2
        w, _ = need(lo, hi)
        return mk(T.lin(w, 0, [(1, at(self.t, self.lo, w)), (k, at(t2, lo2, w))]), lo, hi)

    def __add__(self, o): return self._lin(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._lin(o, -1)
    def __rsub__(self, o):
        if not intlike(o): return NotImplemented
        t2, lo2, hi2 = tv(o)
        lo, hi = lo2 - self.hi, hi2 - self.lo
        w, _ = need(lo, hi)
        return mk(T.lin(w, 0, [(-1, at(self.t, self.lo, w)), (1, at(t2, lo2, w))]), lo, hi)
    def __neg__(self): return 0 - self
    def __pos__(self): return self

    def __mul__(self, o):
        if _type(o) in (_str, list, tuple, bytes):
            return o * _int(self)
        if _type(o) is SymStr:
            return o * self
        if not intlike(o): return NotImplemented
        t2, lo2, hi2 = tv(o)
        c = [self.lo * lo2, self.lo * hi2, self.hi * lo2, self.hi * hi2]
        lo, hi = min(c), max(c)
        w, _ = need(lo, hi)
        return mk(T.mul(at(self.t, self.lo, w), at(t2, lo2, w)), lo, hi)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        return _divmod(self, o)[0] if intlike(o) else NotImplemented
    def __rfloordiv__(self, o):
        return _divmod(o, self)[0] if intlike(o) else NotImplemented
    def __mod__(self, o):
        return _divmod(self, o)[1] if intlike(o) else NotImplemented
    def __rmod__(self, o):
        return _divmod(o, self)[1] if intlike(o) else NotImplemented
    def __divmod__(self, o):
        return _divmod(self, o) if intlike(o) else NotImplemented
    def __rdivmod__(self, o):
        return _divmod(o, self) if intlike(o) else NotImplemented
    def __truediv__(self, o): return _int(self) / o
    def __rtruediv__(self, o): return o / _int(self)
    def __pow__(self, o, m=None):
        e = _int(o)
        if e < 0 or e > 8: raise Inconclusive('power')
        r = 1
        for _ in _range(e): r = r * self
        return r % m if m is not None else r
    def __rpow__(self, o, m=None):
        if o == 2 and self.lo >= 0: return 1 << self
        return o ** _int(self)
    def __abs__(self):
        return -self if self < 0 else self

    # -- bits
    def _bw(self, o, op):
        if not intlike(o): return NotImplemented
        t2, lo2, hi2 = tv(o)
        lo1, hi1, t1 = self.lo, self.hi, self.t
        if op == 'and':
            if lo1 >= 0 or lo2 >= 0:
                # the result lies in the non-negative operand
                if lo1 >= 0 and lo2 >= 0: hi = min(hi1, hi2)
                elif lo1 >= 0: hi = hi1
                else: hi = hi2
                if hi == 0: return 0
                w, _ = need(0, hi)
                return mk(T.band(at(t1, lo1, w), at(t2, lo2, w)), 0, hi)
        if lo1 >= 0 and lo2 >= 0:
            w = max(t1.w, t2.w)
            f = T.bor if op == 'or' else T.bxor
            return mk(f(at(t1, lo1, w), at(t2, lo2, w)), 0, (1 << w) - 1)
        w = max(t1.w + (lo1 >= 0), t2.w + (lo2 >= 0))
        f = T.band if op == 'and' else T.bor if op == 'or' else T.bxor
        return mk(f(at(t1, lo1, w), at(t2, lo2, w)), -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def __and__(self, o): return self._bw(o, 'and')
    __rand__ = __and__
    def __or__(self, o): return self._bw(o, 'or')
    __ror__ = __or__
    def __xor__(self, o): return self._bw(o, 'xor')
    __rxor__ = __xor__

    def __invert__(self):
        lo, hi = -self.hi - 1, -self.lo - 1
        w, _ = need(lo, hi)
        return mk(T.bnot(at(self.t, self.lo, w)), lo, hi)

    def __lshift__(self, o):
        return _shl(self, o) if intlike(o) else NotImplemented
    def __rlshift__(self, o):
        return _shl(o, self) if intlike(o) else NotImplemented
    def __rshift__(self, o):
        return _shr(self, o) if intlike(o) else NotImplemented
    def __rrshift__(self, o):
        return _shr(o, self) if intlike(o) else NotImplemented

    # -- comparison
    def __eq__(self, o):
        if not intlike(o):
            if _isinstance(o, float): return _int(self) == o
            return NotImplemented
        return mkbool(_eqt(self, o))
    def __ne__(self, o):
        if not intlike(o):
            if _isinstance(o, float): return _int(self) != o
            return NotImplemented
        return mkbool(T.bnot_(_eqt(self, o)))
    def __lt__(self, o):
        if not intlike(o): return NotImplemented
        return mkbool(_ltt(self, o))
    def __gt__(self, o):
        if not intlike(o): return NotImplemented
        return mkbool(_ltt(o, self))
    def __le__(self, o):
        if not intlike(o): return NotImplemented
        return mkbool(T.bnot_(_ltt(o, self)))
    def __ge__(self, o):
        if not intlike(o): return NotImplemented
        return mkbool(T.bnot_(_ltt(self, o)))

    def __bool__(self):
        return cur().decide(T.bnot_(T.eq(self.t, T.const(0, self.t.w))))

    # -- conversion: exploring every value
    def __index__(self):
        v = cur().concretize(self.t)
        if self.lo < 0 and v >> (self.t.w - 1):
            v -= 1 << self.t.w
        return v
    def __int__(self): return self.__index__()
    def __float__(self): return float(self.__index__())
    def __hash__(self): return hash(self.__index__())
    def __repr__(self): return repr(self.__index__())
    def __str__(self): return repr(self.__index__())
    def __format__(self, spec): return format(self.__index__(), spec)
    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __getnewargs__(self): raise Inconclusive('pickling a symbolic integer')
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def conjugate(self): return self
    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    def bit_length(self):
        x = abs(self)
        if _type(x) is _int: return x.bit_length()
        w = x.t.w
        r = T.const(0, 16)
        for i in _range(w):
            r = T.ite(T.eq(T.ext(x.t, i, i), T.const(1, 1)), T.const(i + 1, 16), r)
        return mk(r, 0, 0xffff) if r.op == 'c' else _narrow(r, w)

    def bit_count(self):
        x = abs(self)
        if _type(x) is _int: return x.bit_count()
        r = 0
        for i in _range(x.t.w):
            r = r + mk(T.ext(x.t, i, i))
        return r

    def to_bytes(self, length=1, byteorder='big', signed=False):
        length = _int(length)
        if self.lo < 0 and not signed:
            if self < 0: raise OverflowError("can't convert negative int to unsigned")
        if signed:
            ok = mkbool(_between(self, -(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1))
        else:
            ok = self <= (1 << (8 * length)) - 1
        if not ok: raise OverflowError('int too big to convert')
        t = at(self.t, self.lo, 8 * length)
        out = [mk(T.ext(t, 8 * i + 7, 8 * i)) for i in _range(length)]
        if byteorder == 'big': out.reverse()
        return SymBytes(out, bytes)

_INTS = frozenset((_int, bool, SymInt, SymBool))

def _narrow(r, hi):
    """Integer of 16-bit term r known to be <= hi."""
    w, _ = need(0, hi)
    return mk(T.ext(r, w - 1, 0), 0, hi)

def _between(x, lo, hi):
    return T.band_(T.bnot_(_ltt(x, lo)), T.bnot_(_ltt(hi, x)))

def _eqt(x, y):
    t1, lo1, hi1 = tv(x)
    t2, lo2, hi2 = tv(y)
    if hi1 < lo2 or hi2 < lo1:
        return T.FALSE
    if lo1 >= 0 and lo2 >= 0:
        w = max(t1.w, t2.w)
    else:
        w = max(t1.w + (lo1 >= 0), t2.w + (lo2 >= 0))
    return T.eq(at(t1, lo1, w), at(t2, lo2, w))

def _ltt(x, y):
    t1, lo1, hi1 = tv(x)
    t2, lo2, hi2 = tv(y)
    if hi1 < lo2: return T.TRUE
    if lo1 >= hi2: return T.FALSE
    if t1.op == 'lin' or t2.op == 'lin':
        # x + 1 against x + 2: the difference is known modulo 2^w, and its range
        w = max(t1.w + (lo1 >= 0 > lo2), t2.w + (lo2 >= 0 > lo1))
        d = T.lin(w, 0, [(1, at(t1, lo1, w)), (-1, at(t2, lo2, w))])
        if d.op == 'c':
            m = 1 << w
            c = d.a[0]
            least = c + m * -((c - (lo1 - hi2)) // m)
            most = c + m * ((hi1 - lo2 - c) // m)
            if most < 0: return T.TRUE
            if least >= 0: return T.FALSE
    if lo1 >= 0 and lo2 >= 0:
        w = max(t1.w, t2.w)
        return T.ult(at(t1, lo1, w), at(t2, lo2, w))
    w = max(t1.w + (lo1 >= 0), t2.w + (lo2 >= 0))
    return T.slt(at(t1, lo1, w), at(t2, lo2, w))

MAXSHIFT = 600

def _settled(x):
    """x, as a plain integer where this path implies its value."""
    if _type(x) is SymInt:
        v = cur().value(x.t)
        if v is not None:
            return v - (1 << x.t.w) if x.lo < 0 and v >> (x.t.w - 1) else v
    return x

def _shl(x, n):
    t2, lo2, hi2 = tv(_settled(n))
    if lo2 < 0:
        if n < 0: raise ValueError('negative shift count')
        lo2 = 0
    t, lo, hi = tv(x)
    if lo2 == hi2:
        n = hi2
        return mk(T.cat(t, T.const(0, n)) if n else t, lo << n, hi << n)
    if hi2 > MAXSHIFT or (t.op != 'c' and hi2 > 64):
        return x << _int(n)
    lo, hi = min(lo, lo << hi2), max(hi << hi2, hi)
    w, _ = need(lo, hi)
    w2 = max(w, t2.w)
    r = T.shl(at(t, lo, w2), at(t2, 0, w2))
    return mk(T.ext(r, w - 1, 0), lo, hi)

def _shr(x, n):
    t2, lo2, hi2 = tv(_settled(n))
    if lo2 < 0:
        if n < 0: raise ValueError('negative shift count')
        lo2 = 0
    t, lo, hi = tv(x)
    if lo2 == hi2:
        n = hi2
        if n == 0: return x
        if n >= t.w:
            if lo >= 0: return 0
            n = t.w - 1
        return mk(T.ext(t, t.w - 1, n), lo >> n, hi >> n)
    w2 = max(t.w, t2.w)
    f = T.ashr if lo < 0 else T.lshr
    r = f(at(t, lo, w2), at(t2, 0, w2))
    l, h = min(lo, lo >> lo2, lo >> hi2), max(hi >> lo2, hi >> hi2)
    w, _ = need(l, h)
    return mk(T.ext(r, w - 1, 0), l, h)

def _divmod(x, y):
    if y == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if y < 0:
        q, r = _divmod(-x, -y)
        return q, -r
    t2, lo2, hi2 = tv(y)
    lo2 = max(lo2, 1)
    t, lo, hi = tv(x)
    if t2.op == 'c' and t2.a[0] & (t2.a[0] - 1) == 0:
        v = t2.a[0]
        return x >> (v.bit_length() - 1), x & (v - 1)
    if lo < 0:
        if x < 0:
            # floor: -ceil(-x / y)
            q, r = _divmod(-x, y)
            if r == 0:
                return -q, r
            return -q - 1, y - r
        if t.w == 1:
            return 0, 0
        t, lo = T.ext(t, t.w - 2, 0), 0
    # both non-negative now; the width keeps every value exact
    w = max(t.w, t2.w)
    a, b = at(t, 0, w), T.ext(at(t2, lo2 if tv(y)[1] >= 0 else -1, w + 1), w - 1, 0)
    q = T.udiv(a, b)
    r = T.urem(a, b)
    w1, _ = need(0, hi)
    return mk(T.ext(q, min(w1, w) - 1, 0), 0, hi), mk(r if w == max(1, min(hi, hi2).bit_length()) else T.ext(r, max(1, min(hi, hi2).bit_length()) - 1, 0), 0, min(hi, hi2))

# ------------------------------------------------------------------------ ite

def merge_ints(pairs):
    """pairs: [(cond term, int-like)], exhaustive; returns an int-like."""
    pairs = [(c, v) for c, v in pairs if c is not T.FALSE]
    if _len(pairs) == 1 or all(v is pairs[0][1] or (_type(v) is _int and v == pairs[0][1]) for _, v in pairs):
        return pairs[0][1]
    los, his = [], []
    for _, v in pairs:
        _, lo, hi = tv(v)
        los.append(lo); his.append(hi)
    lo, hi = min(los), max(his)
    w, _ = need(lo, hi)
    t0, lo0, _ = tv(pairs[-1][1])
    r = at(t0, lo0, w)
    for c, v in reversed(pairs[:-1]):
        t1, lo1, _ = tv(v)
        r = T.ite(c, at(t1, lo1, w), r)
    return mk(r, lo, hi)

class NoMerge(Exception): pass

def merge(c, x, y):
    """x if c else y (c: a term) as one value, or NoMerge."""
    if c is T.TRUE or x is y: return x
    if c is T.FALSE: return y
    a, b = _type(x), _type(y)
    if a in (_int, SymInt) and b in (_int, SymInt):
        return merge_ints([(c, x), (T.bnot_(c), y)])
    if a in (bool, SymBool) and b in (bool, SymBool):
        return mkbool(T.bor_(T.band_(c, bt(x)), T.band_(T.bnot_(c), bt(y))))
    if a in (_str, SymStr) and b in (_str, SymStr):
        p, q = _cells(x), _cells(y)
        if _len(p) != _len(q): raise NoMerge()
        return mkstr([_merge_cell(c, m, n) for m, n in zip(p, q)])
    raise NoMerge()

def _cells(x):
    """one-character pieces"""
    out = []
    for p in ([x] if _type(x) is _str else x.p):
        if _type(p) is _str: out.extend(p)
        elif p[0] == 'dig' or (p[0] == 'cho' and all(_len(s) == 1 for _, s in p[2])): out.append(p)
        else: raise NoMerge()
    return out

def _merge_cell(c, m, n):
    if m == n: return m
    ds = []
    for x in (m, n):
        if _type(x) is _str:
            i = DIGS.find(x)
            up = False
            if i < 0: i, up = DIGS.upper().find(x), True
            if i < 0: break
            ds.append((T.const(i, max(1, i.bit_length())), i > 9, up))
        elif x[0] == 'dig': ds.append((x[1], x[1].w == 4, x[2]))
        else: break
    if _len(ds) == 2 and (not ds[0][1] or not ds[1][1] or ds[0][2] == ds[1][2]):
        up = ds[0][2] if ds[0][1] else ds[1][2]
        w = max(ds[0][0].w, ds[1][0].w)
        return ('dig', T.ite(c, T.zext(ds[0][0], w), T.zext(ds[1][0], w)), up)
    if _type(m) is _str and _type(n) is _str:
        return ('cho', SymBool(c).i(), ((0, n), (1, m)))
    raise NoMerge()

# ------------------------------------------------------------------------ text
#
# A SymStr is a list of pieces:
#   str                          literal text
#   ('dig', term, up)            one hexadecimal digit of a term of <= 4 bits
#   ('num', SymInt, fmt)         minimal rendering, fmt in 'd' 'x' 'X' 'o' 'b' '+d'
#   ('cho', SymInt, ((v, s)...)) text chosen by an integer, keys exhaustive
#   ('sp', SymInt, ch)           a run of ch

class SymStr(object):
    __slots__ = ('p',)
    __class__ = property(lambda self: _str)

    def __init__(self, pieces):
        self.p = pieces

    # length -------------------------------------------------------------
    def _len(self):
        n = 0
        for x in self.p:
            n = n + _plen(x)
        return n

    def _chars(self):
        """Resolve all lengths by branching; list of one-character pieces."""
        out = []
        for x in self.p:
            if _type(x) is _str:
                out.extend(x)
            elif x[0] == 'dig':
                out.append(x)
            elif x[0] == 'sp':
                out.extend(x[2] * _int(x[1]))
            elif x[0] == 'cho':
                s = _resolve_choice_len(x)
                out.extend(s)
            else:
                out.extend(_num_chars(x))
        return out

    def _concrete(self):
        """Explore every value: a real str."""
        return ''.join([_char_concrete(c) for c in self._chars()])

    def __add__(self, o):
        if _type(o) is SymStr: return mkstr(self.p + o.p)
        if _isinstance(o, _str): return mkstr(self.p + [o])
        return NotImplemented
    def __radd__(self, o):
        if _isinstance(o, _str): return mkstr([o] + self.p)
        return NotImplemented
    def __mul__(self, n):
        return mkstr(self.p * _int(n))
    __rmul__ = __mul__
    def __mod__(self, args):
        return str_mod(self, args)

    def __eq__(self, o):
        if _type(o) is not SymStr and not _isinstance(o, _str): return NotImplemented
        return mkbool(str_eq(self, o))
    def __ne__(self, o):
        if _type(o) is not SymStr and not _isinstance(o, _str): return NotImplemented
        return mkbool(T.bnot_(str_eq(self, o)))
    def __lt__(self, o): return self._concrete() < (o._concrete() if _type(o) is SymStr else o)
    def __gt__(self, o): return self._concrete() > (o._concrete() if _type(o) is SymStr else o)
    def __le__(self, o): return self._concrete() <= (o._concrete() if _type(o) is SymStr else o)
    def __ge__(self, o): return self._concrete() >= (o._concrete() if _type(o) is SymStr else o)

    def __bool__(self):
        n = self._len()
        return bool(n != 0) if _type(n) is SymInt else n != 0
    def __len__(self): return _int(self._len())
    def __hash__(self): return hash(self._concrete())
    def __str__(self): return self._concrete()
    def __repr__(self): return repr(self._concrete())
    def __format__(self, spec): return format(self._concrete(), spec)

    def __iter__(self):
        return iter([_char_str(c) for c in self._chars()])
    def _fixed(self):
        """Leading pieces of known length, as single characters; rest."""
        out = []
        for n, x in enumerate(self.p):
            if _type(x) is _str: out.extend(x)
            elif x[0] == 'dig': out.append(x)
            else: return out, self.p[n:]
        return out, []
    def __getitem__(self, k):
        if _isinstance(k, slice) and k.step in (None, 1):
            c, rest = self._fixed()
            lo, hi = k.start or 0, k.stop
            if _type(lo) is _int and 0 <= lo <= _len(c):
                if hi is None: return mkstr(c[lo:] + rest)
                if _type(hi) is _int and 0 <= hi <= _len(c): return mkstr(c[lo:hi])
                if _type(hi) is _int and hi < 0 and rest and _type(rest[-1]) is _str and _len(rest[-1]) >= -hi:
                    return mkstr(c[lo:] + rest[:-1] + [rest[-1][:hi]])
        elif _type(k) is _int and k >= 0:
            c, rest = self._fixed()
            if k < _len(c): return _char_str(c[k])
        c = self._chars()
        if _isinstance(k, slice):
            return mkstr([x if _type(x) is _str else x for x in c[k]])
        return _char_str(c[k])
    def __reversed__(self):
        return iter([_char_str(c) for c in reversed(self._chars())])
    def __contains__(self, o):
        # literal needle: inside one literal piece decides positively
        if _isinstance(o, _str) and _type(o) is _str:
            for x in self.p:
                if _type(x) is _str and o in x: return True
            if _len(o) == 1 and all(not _maybe_char(o, x) for x in self.p if _type(x) is not _str): return False
        chars = self._chars()
        needle = o._chars() if _type(o) is SymStr else list(o)
        n = _len(needle)
        conds = []
        for i in _range(_len(chars) - n + 1):
            conds.append(T.band_(*[_char_eq(a, b) for a, b in zip(chars[i:i + n], needle)]))
        return bool(mkbool(T.bor_(*conds)))

    # methods ------------------------------------------------------------
    def _map(self, f, up):
        out = []
        for x in self.p:
            if _type(x) is _str: out.append(f(x))
            elif x[0] == 'dig': out.append(('dig', x[1], up))
            elif x[0] == 'num':
                fm = x[2]
                out.append(('num', x[1], fm.replace('x', 'X') if up else fm.replace('X', 'x')))
            elif x[0] == 'cho': out.append(('cho', x[1], tuple((v, f(s)) for v, s in x[2])))
            else: out.append(x)
        return mkstr(out)
    def lower(self): return self._map(_str.lower, False)
    def upper(self): return self._map(_str.upper, True)
    def ljust(self, n, ch=' '): return str_pad(self, n, ch, '<')
    def rjust(self, n, ch=' '): return str_pad(self, n, ch, '>')
    def center(self, n, ch=' '): return str_pad(self, n, ch, '^')
    def zfill(self, n): return str_pad(self, n, '0', '>')
    def join(self, xs): return str_join(self, xs)
    def format(self, *a, **k): return str_format(self, a, k)
    def count(self, s):
        s = [s] if _len(s) == 1 else None
        if s is None: return self._concrete().count(s)
        n = 0
        cells = []
        for p in self.p:
            if s[0] == '1' and _type(p) is tuple and p[0] == 'num' and p[2] == 'b' and p[1].lo >= 0:
                # no need to know the number of digits
                n = n + p[1].bit_count()
            else: cells.append(p)
        for c in SymStr(cells)._chars():
            e = _char_eq(c, s[0])
            n = n + (mkbool(e).i() if e not in (T.TRUE, T.FALSE) else (1 if e is T.TRUE else 0))
        return n
    def startswith(self, o, *a):
        if a or _type(o) is tuple: return self._concrete().startswith(o, *a)
        n = o._chars() if _type(o) is SymStr else list(o)
        c, rest = self._fixed()
        if _len(c) < _len(n):
            if any([_char_eq(a, b) is T.FALSE for a, b in zip(c, n)]): return False
            c = self._chars()
        if _len(c) < _len(n): return False
        return mkbool(T.band_(*[_char_eq(a, b) for a, b in zip(c, n)]))
    def endswith(self, o, *a):
        if a or _type(o) is tuple: return self._concrete().endswith(o, *a)
        if self.p and _type(self.p[-1]) is _str and _type(o) is _str and _len(self.p[-1]) >= _len(o):
            return self.p[-1].endswith(o)
        c, n = self._chars(), (o._chars() if _type(o) is SymStr else list(o))
        if _len(c) < _len(n): return False
        return mkbool(T.band_(*[_char_eq(a, b) for a, b in zip(c[_len(c) - _len(n):], n)]))
    def rstrip(self, chars=None):
        if not _touch(self.p[-1], chars): return self
        if _type(self.p[-1]) is _str and (chars is None or _type(chars) is _str):
            t = self.p[-1].rstrip(chars)
            if t: return mkstr(self.p[:-1] + [t])
        c = self._chars()
        while c and _char_in(c[-1], chars): c.pop()
        return mkstr(c)
    def lstrip(self, chars=None):
        if not _touch(self.p[0], chars): return self
        if _type(self.p[0]) is _str and (chars is None or _type(chars) is _str):
            t = self.p[0].lstrip(chars)
            if t: return mkstr([t] + self.p[1:])
        c = self._chars()
        while c and _char_in(c[0], chars): c.pop(0)
        return mkstr(c)
    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if _type(r) is SymStr else r.rstrip(chars)
    def isdigit(self):
        c = self._chars()
        return bool(c) and all([_char_in(x, '0123456789') for x in c])
    def replace(self, a, b, n=-1):
        # exact on literals when the needle cannot involve symbolic pieces
        if _type(a) is _str and n == -1 and a and all(not _maybe_char(ch, x) for x in self.p if _type(x) is not _str for ch in a):
            return mkstr([x.replace(a, b) if _type(x) is _str else x for x in self.p])
        c = self._chars()
        if _len(a) == 1 and n == -1:
            out = []
            for x in c:
                out.append(b if bool(mkbool(_char_eq(x, a))) else x)
            return mkstr(out)
        return self._concrete().replace(a, b, n)
    def split(self, sep=None, maxsplit=-1):
        if _type(sep) is _str and _len(sep) == 1 and _type(maxsplit) is _int and \
                all(not _maybe_char(sep, x) for x in self.p if _type(x) is not _str):
            out, curp = [], []
            for x in self.p:
                if _type(x) is _str:
                    parts = x.split(sep, maxsplit - _len(out) if maxsplit >= 0 else -1)
                    curp.append(parts[0])
                    for q in parts[1:]:
                        out.append(mkstr(curp)); curp = [q]
                else:
                    curp.append(x)
            out.append(mkstr(curp))
            return out
        if sep is None and maxsplit == -1 and all(not _maybe_char(' ', x) for x in self.p
                                                  if _type(x) is not _str and x[0] != 'sp'):
            out, curp, any_ = [], [], False
            for x in self.p:
                if _type(x) is not _str and x[0] == 'sp' and bool(x[1] == 0):
                    continue
                if _type(x) is not _str and x[0] == 'sp':
                    x = x[2]
                if _type(x) is _str:
                    for ch in x:
                        if ch.isspace():
                            if any_: out.append(mkstr(curp))
                            curp, any_ = [], False
                        else:
                            curp.append(ch); any_ = True
                else:
                    curp.append(x); any_ = True
            if any_: out.append(mkstr(curp))
            return out
        r = self._chosen(' ' if sep is None else sep)
        if r is not self: return r.split(sep, maxsplit)
        return self._concrete().split(sep, maxsplit)
    def partition(self, sep):
        r = self.split(sep, 1)
        return (r[0], sep, r[1]) if _len(r) == 2 else (self, '', '')
    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        return (r[0], sep, r[1]) if _len(r) == 2 else ('', '', self)
    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0: return self.split(sep)
        if sep is None: return self._concrete().rsplit(sep, maxsplit)
        r = self.split(sep)
        k = _len(r) - maxsplit
        return r if k <= 1 else [str_join(sep, r[:k])] + r[k:]
    def removeprefix(self, x):
        return self[_len(x):] if bool(self.startswith(x)) else self
    def removesuffix(self, x):
        return self[:-_len(x)] if x and bool(self.endswith(x)) else self
    def isspace(self):
        c = self._chars()
        return bool(c) and all([_char_in(x, ' \t\n\r\v\f') for x in c])
    def casefold(self): return self.lower()
    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(_str, name): raise AttributeError(name)
        return getattr(self._concrete(), name)
    def _chosen(self, chars):
        """With the choices decided that may involve one of the characters."""
        if _type(chars) is not _str: return self
        out, some = [], False
        for x in self.p:
            if _type(x) is not _str and x[0] == 'cho' and any([_maybe_char(ch, x) for ch in chars]):
                out.append(dict(x[2])[_int(x[1])]); some = True
            else: out.append(x)
        return mkstr(out) if some else self
    def splitlines(self, keep=False):
        r = self.split('\n')
        if _type(r[-1]) is _str and r[-1] == '': r.pop()
        return r
    def find(self, s, *a): return self._concrete().find(s, *a)
    def index(self, s, *a): return self._concrete().index(s, *a)
    def encode(self, *a): return self._concrete().encode(*a)
    def isalpha(self): return self._concrete().isalpha()
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

DIGS = '0123456789abcdef'

def _touch(x, chars):
    """Might stripping chars remove something of piece x?"""
    chars = ' \t\n\r\x0b\x0c' if chars is None else chars
    if _type(chars) is not _str: return True
    if _type(x) is _str: return any([c in x for c in chars])
    return any([_maybe_char(c, x) for c in chars])

def _maybe_char(ch, x):
    if x[0] == 'dig': return ch in (DIGS.upper() if x[2] else DIGS)
    if x[0] == 'num': return ch in '-+0123456789abcdefABCDEF'
    if x[0] == 'cho': return any(ch in s for _, s in x[2])
    return ch == x[2]

def mkstr(pieces):
    out = []
    for x in pieces:
        if _type(x) is SymStr:
            for y in x.p: _padd(out, y)
        else:
            _padd(out, x)
    if not out: return ''
    if _len(out) == 1 and _type(out[0]) is _str: return out[0]
    return SymStr(out)

def _padd(out, x):
    if _type(x) is _str or _isinstance(x, _str):
        if not x: return
        if out and _type(out[-1]) is _str: out[-1] = out[-1] + x
        else: out.append(x)
        return
    k = x[0]
    if k == 'dig' and x[1].op == 'c':
        d = DIGS[x[1].a[0]]
        return _padd(out, d.upper() if x[2] else d)
    if k == 'num' and _type(x[1]) is _int:
        return _padd(out, format(x[1], x[2]))
    if k == 'sp' and _type(x[1]) is _int:
        return _padd(out, x[2] * x[1])
    if k == 'cho':
        if _type(x[1]) is _int:
            return _padd(out, dict(x[2])[x[1]])
        ss = set(s for _, s in x[2])
        if _len(ss) == 1: return _padd(out, ss.pop())
    if k == 'sp' and out and _type(out[-1]) is tuple and out[-1][0] == 'sp' and out[-1][2] == x[2]:
        out[-1] = ('sp', out[-1][1] + x[1], x[2])
        return
    out.append(x)

def _plen(x):
    if _type(x) is _str: return _len(x)
    k = x[0]
    if k == 'dig': return 1
    if k == 'sp': return x[1]
    if k == 'cho':
        return merge_ints([(_eqt(x[1], v), _len(s)) for v, s in x[2]])
    return _num_len(x[1], x[2])

_BASE = {'d': 10, '+d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2}

def _num_len(v, fmt):
    b = _BASE[fmt]
    n = 0
    if v.lo < 0 or fmt[0] == '+':
        if fmt[0] == '+': n = 1
        else: n = mkbool(_ltt(v, 0)).i() if not _type(mkbool(_ltt(v, 0))) is bool else _int(mkbool(_ltt(v, 0)))
        a = _absmerge(v)
    else:
        a = v
    top = tv(a)[2]
    r = 1
    p = b
    k = 1
    while p <= top:
        c = T.bnot_(_ltt(a, p))
        r = r + (mkbool(c).i() if c not in (T.TRUE, T.FALSE) else (1 if c is T.TRUE else 0))
        p *= b
    return n + r

def _absmerge(v):
    if v.lo >= 0: return v
    if v.hi <= 0: return -v
    return merge_ints([(_ltt(v, 0), -v), (T.bnot_(_ltt(v, 0)), v)])

def _resolve_choice_len(x):
    groups = {}
    for v, s in x[2]:
        groups.setdefault(_len(s), []).append((v, s))
    ks = sorted(groups)
    for k in ks[:-1]:
        if cur().decide(T.bor_(*[_eqt(x[1], v) for v, _ in groups[k]])):
            break
    else:
        k = ks[-1]
    g = groups[k]
    out = []
    for i in _range(k):
        chs = set(s[i] for _, s in g)
        if _len(chs) == 1:
            out.append(chs.pop())
        else:
            out.append(('cho', x[1], tuple((v, s[i]) for v, s in g)))
    return out

def _num_chars(x):
    v, fmt = x[1], x[2]
    out = []
    neg = False
    if v.lo < 0:
        if v < 0:
            neg = True
            v = -v
        else:
            v = mk(at(v.t, v.lo, v.t.w), 0, v.hi) if False else _nonneg(v)
    if neg: out.append('-')
    elif fmt[0] == '+': out.append('+')
    b = _BASE[fmt]
    if _type(v) is _int:
        return out + list(format(v, fmt.lstrip('+')))
    # number of digits, by branching
    n = 1
    p = b
    while p <= v.hi:
        if v < p: break
        n += 1; p *= b
    up = fmt == 'X'
    digs = []
    if b == 10:
        for i in _range(n):
            q = v // (10 ** i)
            d = q % 10
            digs.append(_dig(d, False))
    else:
        k = b.bit_length() - 1
        for i in _range(n):
            digs.append(_dig((v >> (k * i)) & (b - 1), up))
    digs.reverse()
    return out + digs

def _nonneg(v):
    """v, known to be >= 0 on this path."""
    return mk(T.ext(v.t, v.t.w - 2, 0), 0, v.hi)

def _dig(d, up):
    """one-character piece for int-like 0..15"""
    if _type(d) is _int:
        return DIGS[d].upper() if up else DIGS[d]
    return ('dig', at(d.t, 0, d.t.w), up)

def _char_str(c):
    return c if _type(c) is _str else SymStr([c])

def _char_concrete(c):
    if _type(c) is _str: return c
    if c[0] == 'dig':
        d = DIGS[cur().concretize(c[1])]
        return d.upper() if c[2] else d
    return dict(c[2])[_int(c[1])]

def _char_vals(c):
    """[(cond, char)]"""
    if c[0] == 'dig':
        ds = DIGS.upper() if c[2] else DIGS
        return [(T.eq(c[1], T.const(i, c[1].w)), ds[i]) for i in _range(1 << c[1].w)]
    return [(_eqt(c[1], v), s) for v, s in c[2]]

def _char_eq(a, b):
    if _type(a) is _str and _type(b) is _str:
        return T.TRUE if a == b else T.FALSE
    if _type(a) is _str: a, b = b, a
    if _type(b) is _str:
        if a[0] == 'dig':
            ds = DIGS.upper() if a[2] else DIGS
            i = ds.find(b)
            if i < 0 or i >> a[1].w: return T.FALSE
            return T.eq(a[1], T.const(i, a[1].w))
        return T.bor_(*[_eqt(a[1], v) for v, s in a[2] if s == b])
    if a[0] == 'dig' and b[0] == 'dig' and (a[2] == b[2] or (a[1].w < 4 and b[1].w < 4)):
        w = max(a[1].w, b[1].w)
        return T.eq(T.zext(a[1], w), T.zext(b[1], w))
    if a[0] == 'cho' and b[0] == 'cho' and a[2] == b[2] and _len(set(s for _, s in a[2])) == _len(a[2]):
        return _eqt(a[1], b[1])
    d = {}
    for c, s in _char_vals(b):
        d.setdefault(s, []).append(c)
    return T.bor_(*[T.band_(c, T.bor_(*d[s])) for c, s in _char_vals(a) if s in d])

def _char_in(c, chars):
    if chars is None: chars = ' \t\n\r\x0b\x0c'
    if _type(c) is _str: return c in chars
    return bool(mkbool(T.bor_(*[_char_eq(c, x) for x in chars])))

def _sep_ok(x):
    """literal that cannot belong to a number/choice next to it"""
    return _type(x) is _str

def str_eq(a, b):
    """Term: the two texts are equal."""
    pa = a.p if _type(a) is SymStr else ([a] if a else [])
    pb = b.p if _type(b) is SymStr else ([b] if b else [])
    t = _aligned(pa, pb)
    if t is not None:
        return t
    ca = SymStr(pa)._chars()
    cb = SymStr(pb)._chars()
    if _len(ca) != _len(cb): return T.FALSE
    return T.band_(*[_char_eq(x, y) for x, y in zip(ca, cb)])

def _aligned(pa, pb):
    """Equality when both lists have the same shape and it parses uniquely."""
    pa, pb = list(pa), list(pb)
    conds = []
    while pa and pb:
        x, y = pa[0], pb[0]
        if _type(x) is _str and _type(y) is _str:
            n = min(_len(x), _len(y))
            if x[:n] != y[:n]: return T.FALSE
            _adv(pa, n); _adv(pb, n)
            continue
        if _type(x) is _str or _type(y) is _str:
            if _type(x) is _str: x, y, pa, pb = y, x, pb, pa
            # y literal, x symbolic
            if x[0] == 'dig':
                conds.append(_char_eq(x, y[0]))
                pa.pop(0); _adv(pb, 1)
                continue
            return None
        if x[0] == 'dig' and y[0] == 'dig':
            conds.append(_char_eq(x, y)); pa.pop(0); pb.pop(0)
            continue
        if x[0] != y[0]: return None
        # variable length: the same kind, and followed alike by something that ends it
        nx, ny = (pa[1] if _len(pa) > 1 else None), (pb[1] if _len(pb) > 1 else None)
        if x[0] == 'num':
            if _BASE[x[2]] != _BASE[y[2]] or x[2] != y[2]: return None
            if not (_ends(nx) and _ends(ny)): return None
            conds.append(_eqt(x[1], y[1]))
        elif x[0] == 'cho':
            t = _cho_eq(x, y, nx, ny)
            if t is None: return None
            conds.append(t)
        else:
            if x[2] != y[2]: return None
            for n in (nx, ny):
                if n is not None and not (_type(n) is _str and n[0] != x[2]): return None
            conds.append(_eqt(x[1], y[1]))
        pa.pop(0); pb.pop(0)
    if pa or pb:
        # the rest must be empty text
        rest = pa or pb
        if any(_type(x) is _str or x[0] in ('dig', 'num') for x in rest): return T.FALSE
        return None
    return T.band_(*conds)

def _adv(p, n):
    if n == _len(p[0]): p.pop(0)
    else: p[0] = p[0][n:]

def _ends(n):
    """what follows cannot continue a number"""
    return n is None or (_type(n) is _str and n[0] not in '0123456789abcdefABCDEF')

def _cho_eq(x, y, nx, ny):
    sx, sy = [s for _, s in x[2]], [s for _, s in y[2]]
    alls = set(sx) | set(sy)
    lens = set(map(_len, alls))
    if _len(lens) > 1:
        # must be terminated by a character occurring in no option
        for n in (nx, ny):
            if n is None: continue
            if _type(n) is not _str or any(n[0] in s for s in alls): return None
    if x[2] == y[2] and _len(set(sx)) == _len(sx):
        return _eqt(x[1], y[1])
    d = {}
    for v, s in y[2]: d.setdefault(s, []).append(_eqt(y[1], v))
    return T.bor_(*[T.band_(_eqt(x[1], v), T.bor_(*d[s])) for v, s in x[2] if s in d])

# formatting ---------------------------------------------------------------

def str_join(sep, xs):
    out = []
    first = True
    for x in xs:
        if not (_type(x) is SymStr or _isinstance(x, _str)):
            raise TypeError('sequence item: expected str instance')
        if not first: out.append(sep)
        first = False
        out.append(x)
    return mkstr(out)

def str_pad(s, n, ch, al):
    l = s._len() if _type(s) is SymStr else _len(s)
    d = n - l
    if _type(d) is SymInt:
        if d.hi <= 0: return s if _type(s) is SymStr else s
        if d.lo < 0:
            d = merge_ints([(_ltt(d, 0), 0), (T.bnot_(_ltt(d, 0)), d)])
            if _type(d) is SymInt and d.lo < 0: d = mk(T.ext(d.t, d.t.w - 2, 0), 0, d.hi)
    elif d <= 0:
        return s
    if al == '<': return mkstr([s, ('sp', d, ch)])
    if al == '>': return mkstr([('sp', d, ch), s])
    k = _int(d)
    return mkstr([ch * (k // 2), s, ch * (k - k // 2)])

def as_index(v):
    """The integer an object stands for in a numeric format."""
    if _type(v) in (SymInt, SymBool): return v if _type(v) is SymInt else v.i()
    if _isinstance(v, _int): return _int(v)
    m = getattr(_type(v), '__index__', None) or getattr(_type(v), '__int__', None)
    if m is not None:
        raw = getattr(m, '__vp_raw__', m)
        return raw(v)
    raise TypeError('%%x format: an integer is required, not %s' % _type(v).__name__)

def as_text(v):
    if _type(v) is SymStr: return v
    if _type(v) is SymInt: return mkstr([('num', v, 'd')])
    if _type(v) is SymBool:
        return mkstr([('cho', v.i(), ((0, 'False'), (1, 'True')))])
    if _isinstance(v, _str): return v
    for nm in ('__str__', '__repr__'):
        m = getattr(_type(v), nm, None)
        raw = getattr(m, '__vp_raw__', None)
        if raw is not None: return raw(v)
        if nm == '__str__' and m is not object.__str__: break
    if _type(v) in (list, tuple):
        o, c = ('[', ']') if _type(v) is list else ('(', ')')
        parts = [o]
        for i, x in enumerate(v):
            if i: parts.append(', ')
            parts.append(as_repr(x))
        if _type(v) is tuple and _len(v) == 1: parts.append(',')
        parts.append(c)
        return mkstr(parts)
    return _str(v)

def as_repr(v):
    if _type(v) in (SymInt, SymBool): return as_text(v)
    if _type(v) is SymStr: return mkstr(["'", v, "'"])
    m = getattr(_type(v), '__repr__', None)
    raw = getattr(m, '__vp_raw__', None)
    if raw is not None: return raw(v)
    if _type(v) in (list, tuple): return as_text(v)
    return repr(v)

def num_text(v, conv, width=0, flags='', prec=None):
    """%-style / format-style integer rendering."""
    if conv in 'iu': conv = 'd'
    b = {'d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2}[conv]
    alt = '#' in flags
    if _type(v) is _int:
        s = format(abs(v), conv)
        sign = '-' if v < 0 else '+' if '+' in flags else ' ' if ' ' in flags else ''
        if alt and b != 10: sign += '0' + conv
        if prec is not None: s = s.rjust(prec, '0')
        if '-' in flags: return (sign + s).ljust(width)
        if '0' in flags: return sign + s.rjust(width - _len(sign), '0')
        return (sign + s).rjust(width)
    prefix = ('0' + conv) if alt and b != 10 else ''
    sign = ''
    neg = None
    if v.lo < 0:
        if '+' in flags and not prefix and (width == 0) and conv == 'd':
            return mkstr([('num', v, '+d')])
        if width == 0 and not prefix and '+' not in flags and ' ' not in flags and prec is None:
            return mkstr([('num', v, conv)])
        if v < 0:
            sign = '-'; v = -v
        else:
            v = _nonneg(v)
    if not sign: sign = '+' if '+' in flags else ' ' if ' ' in flags else ''
    if _type(v) is _int:
        body = format(v, conv)
        if prec is not None: body = body.rjust(prec, '0')
    elif prec is not None:
        body = _zero_padded(v, conv, b, prec)
    elif '0' in flags and '-' not in flags and width > 0:
        body = _zero_padded(v, conv, b, width - _len(sign) - _len(prefix))
    else:
        if sign == '+' and not prefix and conv == 'd' and width == 0:
            return mkstr([('num', v, '+d')])
        body = mkstr([('num', v, conv)])
    s = mkstr([sign, prefix, body])
    if width:
        s = str_pad(s, width, ' ', '<' if '-' in flags else '>')
    return s

def _zero_padded(v, conv, b, width):
    if b != 10:
        k = b.bit_length() - 1
        if v.hi >> (k * width) == 0:
            return mkstr([_dig((v >> (k * i)) & (b - 1), conv == 'X') for i in reversed(_range(width))])
        # wider values possible
        if width > 0 and v < (1 << (k * width)):
            return _zero_padded(mk(T.ext(v.t, k * width - 1, 0), 0, (1 << (k * width)) - 1), conv, b, width)
        return mkstr([('num', v, conv)])
    s = mkstr([('num', v, conv)])
    return str_pad(s, width, '0', '>')

import re as _re
_PCT = _re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])')

def has_sym(v, depth=2):
    k = _type(v)
    if k in (SymInt, SymBool, SymStr, SymBytes): return True
    if k in (tuple, list) and depth:
        return any([has_sym(x, depth - 1) for x in v])
    if k is dict and depth:
        return any([has_sym(x, depth - 1) for x in v.values()])
    return k not in _PLAIN

_PLAIN = frozenset((_int, _str, float, bool, _type(None), bytes))

def str_mod(fmt, args):
    if _type(fmt) is SymStr:
        fmt = fmt._concrete()
    if not has_sym(args):
        return fmt % args
    mapping = args if _type(args) is dict else None
    if _type(args) is not tuple: args = (args,)
    args = list(args)
    out = []
    pos = 0
    nxt = 0
    for m in _PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%'); continue
        def arg():
            nonlocal nxt
            if nxt >= _len(args): raise TypeError('not enough arguments for format string')
            v = args[nxt]; nxt += 1
            return v
        if width == '*':
            width = _int(as_index(arg()))
            if width < 0: flags += '-'; width = -width
        else:
            width = _int(width) if width else 0
        if prec == '*': prec = _int(as_index(arg()))
        elif prec is not None: prec = _int(prec)
        v = mapping[name] if name is not None else arg()
        if conv in 'dixXou':
            if _isinstance(v, float): v = _int(v)
            out.append(num_text(as_index(v), conv, width, flags, prec))
        elif conv in 'sr':
            s = as_text(v) if conv == 's' else as_repr(v)
            if prec is not None: s = s[:prec]
            out.append(str_pad(s, width, ' ', '<' if '-' in flags else '>') if width else s)
        elif conv == 'c':
            out.append(v if _isinstance(v, _str) else chr_(v))
        else:
            out.append(('%' + flags + (_str(width) if width else '') + conv) % (v,))
    tail = fmt[pos:]
    if '%' in tail: raise ValueError('incomplete format')
    out.append(tail)
    if mapping is None and nxt < _len(args):
        raise TypeError('not all arguments converted during string formatting')
    return mkstr(out)

_SPEC = _re.compile(r'^(?:(.)?([<>^=]))?([+\- ])?(#)?(0)?(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%])?$')

def fmt_value(v, spec):
    """format(v, spec)"""
    if _type(spec) is SymStr: spec = spec._concrete()
    if not has_sym(v): return format(v, spec)
    m = _SPEC.match(spec)
    if not m: raise Inconclusive('format spec %r' % spec)
    fill, al, sign, alt, zero, width, comma, prec, conv = m.groups()
    width = _int(width) if width else 0
    if comma: raise Inconclusive('format spec %r' % spec)
    if _type(v) in (SymInt, SymBool):
        if _type(v) is SymBool:
            if not conv: v = as_text(v)
            else: v = v.i()
    elif _type(v) is not SymStr and not _isinstance(v, _str):
        f = getattr(_type(v), '__format__', None)
        if f is not object.__format__ and hasattr(f, '__vp_raw__'): return f.__vp_raw__(v, spec)
        if spec == '': v = as_text(v)
        elif _type(v) in (list, tuple) or f is object.__format__:
            raise TypeError('unsupported format string passed to %s.__format__' % _type(v).__name__)
        else:
            return format(v, spec)
    if _type(v) is SymInt or _type(v) is _int:
        conv = conv or 'd'
        if conv not in 'dxXob':
            if conv == 'c': return chr_(v)
            return format(_int(v), spec)
        flags = (alt or '') + (sign if sign in ('+', ' ') else '' if sign else '')
        if zero and not al: al, fill = '=', '0'
        if al == '=' or (al is None and width == 0):
            if al == '=' and (fill or ' ') == '0': flags += '0'
            elif al == '=': raise Inconclusive('format spec %r' % spec)
            return num_text(v, conv, width, flags)
        s = num_text(v, conv, 0, flags)
        return str_pad(s, width, fill or ' ', al or '>') if width else s
    s = v
    if prec is not None: s = s[:_int(prec)]
    if width: s = str_pad(s, width, fill or ('0' if zero else ' '), al or '<')
    return s

import string as _string

def str_format(fmt, args, kw):
    if _type(fmt) is SymStr: fmt = fmt._concrete()
    if not has_sym(args) and not has_sym(kw):
        return _str.format(fmt, *args, **kw)
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        out.append(lit)
        if field is None: continue
        if field == '' or field[0] in '.[':
            field = '%d%s' % (auto, field); auto += 1
        first, rest = _string._string.formatter_field_name_split(field)
        v = args[first] if _isinstance(first, _int) else kw[first]
        for is_attr, k in rest:
            v = getattr(v, k) if is_attr else v[k]
        if conv == 'r': v = as_repr(v)
        elif conv == 's': v = as_text(v)
        if spec and '{' in spec: spec = str_format(spec, args, kw)
        out.append(fmt_value(v, spec or ''))
    return mkstr(out)

def chr_(v):
    if _type(v) is SymInt:
        return SymStr([('cho', v, tuple((i, chr(i)) for i in _range(max(0, v.lo), v.hi + 1)))]) if v.hi - v.lo < 300 else chr(_int(v))
    return chr(v)

def parse_int(s, base=10):
    """int(text, base) for symbolic text."""
    if _type(s.p[-1]) is tuple and s.p[-1][0] == 'num' and _len(s.p) <= 2:
        # a number as it was written
        v, b = s.p[-1][1], _BASE[s.p[-1][2]]
        pre = s.p[0].strip() if _len(s.p) == 2 and _type(s.p[0]) is _str else '' if _len(s.p) == 1 else None
        if pre == '' and (base == b or (base == 0 and b == 10)): return v
        minus = bool(pre) and pre[0] == '-' and v.lo >= 0
        if minus:
            pre, v = pre[1:], -v
            if pre == '' and (base == b or (base == 0 and b == 10)): return v
        if (minus or v.lo >= 0) and b != 10 and pre in ('0x', '0X', '0b', '0B', '0o', '0O') and base in (0, b) and \
                {'x': 16, 'b': 2, 'o': 8}[pre[1].lower()] == b: return v
    chars = s._chars()
    # prefixes and underscores only as literals
    i = 0
    n = _len(chars)
    while i < n and _type(chars[i]) is _str and chars[i] in ' \t\n': i += 1
    while n > i and _type(chars[n - 1]) is _str and chars[n - 1] in ' \t\n': n -= 1
    chars = chars[i:n]
    neg = False
    if chars and _type(chars[0]) is _str and chars[0] in '+-':
        neg = chars[0] == '-'
        chars = chars[1:]
    if _len(chars) >= 2 and _type(chars[0]) is _str and chars[0] == '0' and _type(chars[1]) is _str and chars[1] in 'xXbBoO':
        b = {'x': 16, 'b': 2, 'o': 8}[chars[1].lower()]
        if base in (0, b):
            base = b; chars = chars[2:]
    elif base == 0:
        base = 10
        if _len(chars) > 1:
            # a leading zero is only allowed in an all-zero number
            if bool(mkbool(_char_eq(chars[0], '0'))):
                if not all([bool(mkbool(_char_eq(c, '0'))) for c in chars]):
                    raise ValueError('invalid literal for int() with base 0')
                return 0
    if not chars:
        raise ValueError('invalid literal for int() with base %d' % base)
    v = 0
    for c in chars:
        if _type(c) is _str:
            d = _int(c, base)
        elif c[0] == 'dig':
            if (1 << c[1].w) > base:
                if not bool(mkbool(T.ult(c[1], T.const(base, c[1].w)))):
                    raise ValueError('invalid literal for int() with base %d' % base)
            d = mk(c[1])
        else:
            opts = []
            for val, ch in c[2]:
                try: opts.append((_eqt(c[1], val), _int(ch, base)))
                except ValueError:
                    if cur().decide(_eqt(c[1], val)): raise
            d = merge_ints(opts)
        if base & (base - 1) == 0:
            v = (v << (base.bit_length() - 1)) | d
        else:
            v = v * base + d
    return -v if neg else v

# ---------------------------------------------------------------------- bytes

class SymBytes(object):
    """bytearray/bytes of small known length holding int-likes."""
    __slots__ = ('v', 'k')
    __class__ = property(lambda self: self.k)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(self.k, name): raise AttributeError(name)
        if name in ('clear', 'remove'): raise Inconclusive('%s of a byte array' % name)
        return getattr(self._concrete(), name)
    def clear(self): self.v.clear()

    def __init__(self, v, kind=bytearray):
        self.v = list(v)
        self.k = kind

    def __len__(self): return _len(self.v)
    def __iter__(self): return iter(list(self.v))
    def __bool__(self): return bool(self.v)
    def __getitem__(self, i):
        if _isinstance(i, slice):
            return SymBytes(self.v[slice_clip(i, _len(self.v))], self.k)
        return seq_get(self.v, i, self.k.__name__ + ' index out of range')
    def __setitem__(self, i, x):
        if self.k is bytes: raise TypeError("'bytes' object does not support item assignment")
        if _isinstance(i, slice):
            self.v[slice_clip(i, _len(self.v))] = bytes_items(x)
        else:
            x = byte_check(x)
            if _type(i) is SymInt:
                for k in _range(_len(self.v)):
                    pass
                i = _int(i)
            self.v[i] = x
    def __delitem__(self, i): del self.v[i]
    def append(self, x): self.v.append(byte_check(x))
    def extend(self, xs): self.v.extend(bytes_items(xs))
    def insert(self, i, x): self.v.insert(i, byte_check(x))
    def reverse(self): self.v.reverse()
    def pop(self, *a): return self.v.pop(*a)
    def copy(self): return SymBytes(self.v, self.k)
    def __add__(self, o): return SymBytes(self.v + bytes_items(o), self.k)
    def __radd__(self, o): return SymBytes(bytes_items(o) + self.v, bytearray if _isinstance(o, bytearray) else bytes)
    def __iadd__(self, o):
        if self.k is bytes: return self + o
        self.v.extend(bytes_items(o)); return self
    def __mul__(self, n): return SymBytes(self.v * _int(n), self.k)
    __rmul__ = __mul__
    def __contains__(self, x):
        return any([bool(y == x) for y in self.v])
    def __eq__(self, o):
        if not _isinstance(o, (bytes, bytearray)): return NotImplemented
        o = bytes_items(o)
        if _len(o) != _len(self.v): return False
        return mkbool(T.band_(*[_eqt(a, b) for a, b in zip(self.v, o)]))
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)
    def __hash__(self): return hash(self._concrete())
    def _concrete(self): return self.k([_int(x) for x in self.v])
    def __repr__(self): return repr(self._concrete())
    def hex(self, *a):
        if a: return self._concrete().hex(*a)
        return mkstr([_dig(q, False) for x in self.v for q in ((x >> 4) & 15, x & 15)])
    def decode(self, *a): return self._concrete().decode(*a)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def __buffer__(self, flags): return memoryview(bytes(self._concrete()))

def byte_check(x):
    x = as_index(x)
    if _type(x) is SymInt:
        if x.lo < 0 or x.hi > 255:
            if not cur().decide(_between(x, 0, 255)):
                raise ValueError('byte must be in range(0, 256)')
            return mk(T.ext(at(x.t, x.lo, max(x.t.w, 9)), 7, 0))
        return x
    if not 0 <= x <= 255: raise ValueError('byte must be in range(0, 256)')
    return x

def bytes_items(x):
    if _type(x) is SymBytes: return list(x.v)
    if _type(x) is ArrBytes: return x.items()
    if _isinstance(x, (bytes, bytearray)): return list(x)
    if _type(x) is SymInt or _isinstance(x, _int):
        return [0] * _int(x)
    if _isinstance(x, _str): raise TypeError('string argument without an encoding')
    return [byte_check(y) for y in x]

class ArrBytes(object):
    """bytearray of known (large) length backed by an SMT array."""
    __slots__ = ('a', 'n')
    __class__ = property(lambda self: bytearray)
    IW = 32

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(bytearray, name): raise AttributeError(name)
        raise Inconclusive('%s of a large byte array' % name)

    def __init__(self, a, n):
        self.a = a; self.n = n

    def items(self):
        if self.n > 4096: raise Inconclusive('iterating over a large byte array')
        return [self.get(i) for i in _range(self.n)]
    def get(self, i):
        t, lo, _ = tv(i)
        return mk(T.select(self.a, at(t, lo, self.IW)))
    def put(self, i, x):
        t, lo, _ = tv(i)
        x, xlo, _ = tv(x)
        self.a = T.store(self.a, at(t, lo, self.IW), at(x, xlo, 8))
    def __len__(self): return self.n
    def __bool__(self): return self.n != 0
    def __iter__(self): return iter(self.items())
    def _norm(self, i):
        i = as_index(i)
        if i < 0: i = i + self.n
        if i < 0 or i >= self.n: raise IndexError('bytearray index out of range')
        return i
    def _bounds(self, s):
        """slice -> (start, count), count concrete"""
        if s.step is not None and s.step != 1: raise Inconclusive('stepped slice of a large byte array')
        def clip(x):
            x = as_index(x)
            if x < 0:
                x = x + self.n
                if x < 0: return 0
            if x > self.n: return self.n
            return x
        a = 0 if s.start is None else clip(s.start)
        b = self.n if s.stop is None else clip(s.stop)
        d = b - a
        if d <= 0: return a, 0
        if _type(d) is SymInt: d = _int(d)
        return a, d
    def __getitem__(self, i):
        if _isinstance(i, slice):
            a, d = self._bounds(i)
            if d > 4096:
                if _type(a) is not _int or a: raise Inconclusive('large slice')
                return ArrBytes(self.a, d)
            return SymBytes([self.get(a + k) for k in _range(d)])
        return self.get(self._norm(i))
    def __setitem__(self, i, x):
        if _isinstance(i, slice):
            a, d = self._bounds(i)
            if _type(x) is ArrBytes and d == self.n == x.n:
                self.a = x.a
                return
            items = bytes_items(x)
            if _len(items) != d:
                # the array changes its length: move the tail (small arrays only)
                if self.n > 256: raise Inconclusive('resizing a large byte array')
                a = _int(a)
                all_ = self.items()
                all_[a:a + d] = items
                self.a = T.acon(self.IW, T.const(0, 8))
                self.n = _len(all_)
                for k, y in enumerate(all_): self.put(k, y)
                return
            for k, y in enumerate(items): self.put(a + k, y)
        else:
            self.put(self._norm(i), byte_check(x))
    def append(self, x):
        self.put(self.n, byte_check(x)); self.n += 1
    def extend(self, xs):
        for x in bytes_items(xs): self.append(x)
    def copy(self): return ArrBytes(self.a, self.n)
    def __eq__(self, o):
        return SymBytes(self.items()).__eq__(o)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

# ------------------------------------------------------------- indexing, hashing

def slice_clip(s, n):
    """The slice s of a sequence of n elements: bounds far outside it are no different cases."""
    def clip(x):
        if _type(x) is SymBool: x = x.i()
        if _type(x) is not SymInt: return x
        lo, hi = max(x.lo, -n - 1), min(x.hi, n)
        if (lo, hi) == (x.lo, x.hi): return x
        if lo > hi: return n if x.lo > n else -n - 1
        w, _ = need(lo, hi)
        t, tlo, _ = tv(x)
        r = T.ext(t, w - 1, 0) if w <= t.w else at(t, tlo, w)
        for c, v in ((_ltt(n, x), n), (_ltt(x, -n - 1), -n - 1)):
            if lo <= v <= hi: r = T.ite(c, T.const(v & ((1 << w) - 1), w), r)
        return mk(r, lo, hi)
    if _type(s.start) in _PLAINBOUND and _type(s.stop) in _PLAINBOUND: return s
    return slice(clip(s.start), clip(s.stop), s.step)

_PLAINBOUND = (_int, type(None))

def seq_get(seq, i, msg='list index out of range'):
    """seq[i] for a list/tuple and a symbolic index."""
    if _type(i) is SymBool: i = i.i()
    if _type(i) is not SymInt:
        return seq[i]
    n = _len(seq)
    e = cur()
    if i.lo < 0 and i < 0:
        i = i + n
        if _type(i) is not SymInt:
            if i < 0: raise IndexError(msg)
            return seq[i]
        if i.lo < 0:
            if i < 0: raise IndexError(msg)
            i = _nonneg(i)
    elif i.lo < 0:
        i = _nonneg(i)
    if _type(i) is not SymInt:
        return seq[i]
    if i.hi >= n and not bool(i < n):
        raise IndexError(msg)
    opts = [(k, seq[k]) for k in _range(max(i.lo, 0), min(i.hi + 1, n))]
    return pick(i, opts)

def pick(key, opts):
    """Value selected by symbolic key among [(int, value)] (known exhaustive)."""
    vals = [v for _, v in opts]
    if all([_type(v) in (_int, SymInt) for v in vals]):
        return merge_ints([(_eqt(key, k), v) for k, v in opts])
    if all([_type(v) is _str for v in vals]):
        return mkstr([('cho', key, tuple((k, v) for k, v in opts))])
    if all([v is vals[0] for v in vals]):
        return vals[0]
    # group by identity, branch over the groups
    k = _int(key)
    return dict(opts)[k]

def dict_get(d, key, default=KeyError):
    """d[key] for a plain dict and a symbolic int key."""
    opts = []
    e = cur()
    for k, v in d.items():
        if intlike(k):
            c = _eqt(key, k)
            if e.known(c) is False: continue
            if c is not T.FALSE: opts.append((k, v, c))
    hit = T.bor_(*[c for _, _, c in opts])
    if not e.decide(hit):
        if default is KeyError: raise KeyError(key)
        return default
    opts = [(k, v) for k, v, c in opts if e.known(c) is not False]
    if _len(opts) > 1 and _len(opts) <= 64 and all([_type(v) is _str for _, v in opts]):
        return pick(key, opts)
    return pick(key, opts)

class SymHash(object):
    """hash(x) of a symbolic value: equal iff the hashed structures are equal."""
    __slots__ = ('s',)
    __class__ = property(lambda self: _int)
    def __init__(self, s): self.s = s
    def __eq__(self, o):
        if _type(o) is SymHash: return self.s == o.s
        return False
    def __ne__(self, o): return lnot(self == o)
    def __hash__(self): return hash(self.s)
    def _op(nm):
        return lambda self, o: SymHash((nm, self.s, o.s if _type(o) is SymHash else o))
    __xor__ = __rxor__ = _op('xor'); __add__ = __radd__ = _op('add'); __mul__ = __rmul__ = _op('mul'); __and__ = __rand__ = _op('and')
    __or__ = __ror__ = _op('or'); __sub__ = _op('sub'); __rsub__ = _op('rsub'); __lshift__ = _op('shl'); __rshift__ = _op('shr')
    __mod__ = _op('mod')

class SymFloat(object):
    """Float holding exactly the 32-bit IEEE pattern `bits` (not a NaN)."""
    __slots__ = ('bits',)
    __class__ = property(lambda self: float)
    def __init__(self, bits): self.bits = bits
    def __eq__(self, o):
        if _type(o) is SymFloat:
            z1, z2 = (self.bits & 0x7fffffff) == 0, (o.bits & 0x7fffffff) == 0
            return mkbool(T.bor_(_eqt(self.bits, o.bits), T.band_(bt(z1), bt(z2))))
        return NotImplemented
    def __hash__(self): raise Inconclusive('hash of a symbolic float')
