"""What a property scenario is written against.

A scenario is a function of S.  Under SymS (here, with the code under test
instrumented) its inputs are symbolic and every check is decided by the solver
for all their values; under ConcS (sx/concrete.py, on the project's own
interpreter with the plain code) the same function runs on one model and the
same checks are plain assertions.
"""
import importlib
import sys
from . import terms as T
from . import values as V
from . import instrument as I
from .engine import cur, PathDone, Violation, Inconclusive, Control

class SymArr(object):
    __slots__ = ('a', 'iw', 'ew')
    def __init__(self, a, iw, ew):
        self.a = a; self.iw = iw; self.ew = ew
    def _ix(self, i):
        t, lo, _ = V.tv(V.as_index(i))
        return V.at(t, lo, self.iw)
    def get(self, i):
        return V.mk(T.select(*self._look(self._ix(i))[:2]))
    def _look(self, i):
        """Array and index of a read, without the writes this path is known
        not to meet, and the writes passed over."""
        a, over = self.a, []
        known = cur().known
        while a.op == 'store':
            j = a.a[1]
            k = known(T.eq(j, i))
            if k is True:
                return a, j, over
            if k is None:
                break
            over.append((j, a.a[2]))
            a = a.a[0]
        return a, i, over
    def put(self, i, v):
        t, lo, _ = V.tv(V.as_index(v))
        v = V.at(t, lo, self.ew)
        i = self._ix(i)
        a, j, over = self._look(i)
        if a.op == 'store' and a.a[1] is j:
            # overwrites an earlier write
            a = a.a[0]
            for k, x in reversed(over): a = T.store(a, k, x)
            self.a = T.store(a, j, v)
        else:
            self.a = T.store(self.a, i, v)
    def copy(self):
        return SymArr(self.a, self.iw, self.ew)
    def put_if(self, c, i, v):
        """Store only where c holds."""
        old = self.get(i)
        self.put(i, merge(c, v, old))

def merge(c, a, b):
    if type(c) is V.SymBool:
        k = cur().known(c.t)
        if k is not None: c = k
    if type(c) is not V.SymBool:
        return a if c else b
    if type(a) in (bool, V.SymBool) and type(b) in (bool, V.SymBool):
        return V.mkbool(T.bor_(T.band_(c.t, V.bt(a)), T.band_(T.bnot_(c.t), V.bt(b))))
    return V.merge_ints([(c.t, a), (T.bnot_(c.t), b)])

class SymS(object):
    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        self.obslog = []
        self.names = {}
        self.log = []

    # ---- inputs
    def _uniq(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s.%d' % (name, n)

    def bv(self, name, w):
        return V.mk(self.eng.declare(self._uniq(name), w))

    def int(self, name, lo, hi):
        """Integer in [lo, hi]."""
        w, sg = V.need(lo, hi)
        t = self.eng.declare(self._uniq(name), w)
        x = V.SymInt(t, -(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else V.SymInt(t, 0, (1 << w) - 1)
        self.eng.assume(V._between(x, lo, hi))
        return V.SymInt(t, lo, hi) if lo != hi else lo

    def bool(self, name):
        return V.mkbool(T.eq(self.eng.declare(self._uniq(name), 1), T.const(1, 1)))

    def choice(self, name, seq):
        """One of seq; every element is explored."""
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[int(self.int(name, 0, len(seq) - 1))]

    def letters(self, name, n, alphabet):
        """Any text of n of these characters."""
        return V.mkstr([V.SymStr([('cho', self.int(name, 0, len(alphabet) - 1), tuple(enumerate(alphabet)))])
                        for k in range(n)])

    def bytes(self, name, n):
        nm = self._uniq(name)
        return V.SymBytes([V.mk(self.eng.declare('%s[%d]' % (nm, i), 8)) for i in range(n)], bytearray)

    def array(self, name, iw, ew):
        return SymArr(self.eng.declare(self._uniq(name), (iw, ew)), iw, ew)

    def zeros(self, iw, ew):
        """Array of zeros."""
        return SymArr(T.acon(iw, T.const(0, ew)), iw, ew)

    def bigbytes(self, name, n):
        """bytearray of n arbitrary bytes, n large."""
        return V.ArrBytes(self.eng.declare(self._uniq(name), (V.ArrBytes.IW, 8)), n)

    # ---- logic
    def assume(self, c):
        if type(c) is V.SymBool:
            self.eng.assume(c.t)
        elif not c:
            raise PathDone()

    def ite(self, c, a, b): return merge(c, a, b)
    def not_(self, c): return V.lnot(c)
    def and_(self, *cs): return V.mkbool(T.band_(*[V.bt(c) for c in cs]))
    def or_(self, *cs): return V.mkbool(T.bor_(*[V.bt(c) for c in cs]))
    def branch(self, c):
        """Explore both truth values of c."""
        return bool(c)
    def concrete(self, x):
        """Explore every value of an integer."""
        return int(x)

    # ---- verdicts
    def check(self, c, what):
        t = c.t if type(c) is V.SymBool else (T.TRUE if c else T.FALSE)
        m = self.eng.check(t)
        if m is not None:
            v = Violation(what)
            v.model = m
            raise v

    def eq(self, a, b, what):
        self.obs(a)
        if a is b:
            return self.check(True, what)
        self.check(a == b, what)

    def same(self, a, b, what, but=None):
        """Two arrays agree everywhere (the index is one more unknown), but may
        differ at one index."""
        if a.a is b.a:
            return self.check(True, what)
        at = []
        bases = []
        arrs = []
        for x in (a, b):
            st, y = [], x.a
            while y.op == 'store':
                st.append((y.a[1], y.a[2]))
                y = y.a[0]
            bases.append(y)
            n = SymArr(y, x.iw, x.ew)
            for i, v in reversed(st):
                i = self.eng.settle(i)
                n.put(V.mk(i), V.mk(self.eng.settle(v)))
                if i not in at: at.append(i)
            arrs.append(n)
        a, b = arrs
        if a.a is b.a:
            return self.check(True, what)
        if bases[0] is bases[1]:
            # equal where neither was written; so compare at the written places
            for i in at:
                i = V.mk(i)
                self.check(self.or_(a.get(i) == b.get(i), False if but is None else i == but), what)
            return
        k = V.mk(self.eng.declare(self._uniq('any'), a.iw))
        self.check(self.or_(a.get(k) == b.get(k), False if but is None else k == but), what)

    def fail(self, what):
        self.check(False, what)

    def cover(self):
        """A scenario that judges without a solver check still counts as reached."""
        self.eng.checked += 1

    # ---- running code under test
    def mod(self, name):
        return importlib.import_module(name)

    def attempt(self, fn, *a):
        """(result, None) or (None, exception)."""
        try:
            return fn(*a), None
        except Exception as e:
            if isinstance(e, Control):
                raise
            return None, e

    def printed(self, fn, *a):
        """(text printed by fn, result)"""
        old = I.OUT[0]
        out = I.OUT[0] = []
        try:
            r = fn(*a)
        finally:
            I.OUT[0] = old
        return V.mkstr(out), r

    def obs(self, x):
        self.obslog.append(snap(x))

    def reload(self):
        """A fresh copy of the code under test."""
        I.purge('cmdis')

def snap(x):
    """Later changes of x must not change what was observed."""
    t = type(x)
    if t is list or t is tuple: return [snap(y) for y in x]
    if t is V.SymBytes: return V.SymBytes(list(x.v), x.k)
    if t is bytearray: return bytes(x)
    return x

# ----------------------------------------------------- values under a model

def text_under(s, m):
    if type(s) is str: return s
    out = []
    for x in s.p:
        if type(x) is str: out.append(x)
        elif x[0] == 'dig':
            d = V.DIGS[T.ev(x[1], m)]
            out.append(d.upper() if x[2] else d)
        elif x[0] == 'num': out.append(format(under(x[1], m), x[2]))
        elif x[0] == 'sp': out.append(x[2] * under(x[1], m))
        elif x[0] == 'cho': out.append(dict(x[2])[under(x[1], m)])
    return ''.join(out)

def under(x, m):
    """JSON-able concrete value of x under model m."""
    t = type(x)
    if t is V.SymInt:
        v = T.ev(x.t, m)
        if x.lo < 0 and v >> (x.t.w - 1): v -= 1 << x.t.w
        return v
    if t is V.SymBool: return bool(T.ev(x.t, m))
    if t is V.SymStr: return text_under(x, m)
    if t is V.SymBytes: return ['bytes'] + [under(y, m) for y in x.v]
    if t in (list, tuple): return [under(y, m) for y in x]
    if t in (int, str, bool, type(None)): return x
    if isinstance(x, (bytes, bytearray)): return ['bytes'] + list(x)
    return t.__name__
