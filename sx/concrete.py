"""Concrete counterpart of sx/scenario.py: runs a scenario on given input values
with the plain, uninstrumented code (on the project's interpreter)."""
import importlib
import io
import sys

class Failed(BaseException):
    pass

class Skip(BaseException):
    pass

class ConcArr(object):
    def __init__(self, default, tab, iw, ew):
        self.d = default; self.t = dict(tab); self.iw = iw; self.ew = ew
    def get(self, i):
        return self.t.get(int(i) & ((1 << self.iw) - 1), self.d)
    def put(self, i, v):
        self.t[int(i) & ((1 << self.iw) - 1)] = int(v) & ((1 << self.ew) - 1)
    def put_if(self, c, i, v):
        if c: self.put(i, v)
    def copy(self):
        return ConcArr(self.d, self.t, self.iw, self.ew)

class ConcS(object):
    symbolic = False

    def __init__(self, model):
        self.v = model.get('vars', {})
        self.a = model.get('arrays', {})
        self.names = {}
        self.obslog = []
        self.out = None

    def _uniq(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s.%d' % (name, n)

    def bv(self, name, w):
        return int(self.v.get(self._uniq(name), 0)) & ((1 << w) - 1)
    def int(self, name, lo, hi):
        name = self._uniq(name)
        if lo >= 0:
            w = max(1, hi.bit_length()); x = int(self.v.get(name, 0)) & ((1 << w) - 1)
        else:
            w = max(hi.bit_length(), (-lo - 1).bit_length()) + 1
            x = int(self.v.get(name, 0)) & ((1 << w) - 1)
            if x >> (w - 1): x -= 1 << w
        if not lo <= x <= hi: raise Skip('input outside its range')
        return x
    def bool(self, name):
        return bool(self.v.get(self._uniq(name), 0))
    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1: return seq[0]
        return seq[self.int(name, 0, len(seq) - 1)]
    def letters(self, name, n, alphabet):
        return ''.join([alphabet[int(self.int(name, 0, len(alphabet) - 1))] for k in range(n)])
    def bytes(self, name, n):
        nm = self._uniq(name)
        return bytearray(int(self.v.get('%s[%d]' % (nm, i), 0)) for i in range(n))
    def array(self, name, iw, ew):
        d, t = self.a.get(self._uniq(name), (0, {}))
        return ConcArr(d, {int(k): x for k, x in t.items()}, iw, ew)
    def zeros(self, iw, ew):
        return ConcArr(0, {}, iw, ew)
    def bigbytes(self, name, n):
        d, t = self.a.get(self._uniq(name), (0, {}))
        b = bytearray([d]) * n
        for k, x in t.items():
            if int(k) < n: b[int(k)] = x
        return b

    def assume(self, c):
        if not c: raise Skip('assumption')
    def ite(self, c, a, b): return a if c else b
    def not_(self, c): return not c
    def and_(self, *cs): return all(cs)
    def or_(self, *cs): return any(cs)
    def branch(self, c): return bool(c)
    def concrete(self, x): return int(x)

    def check(self, c, what):
        if not c: raise Failed(what)
    def eq(self, a, b, what):
        self.obs(a)
        if not (a == b): raise Failed('%s: got %s, expected %s' % (what, show(a), show(b)))
    def same(self, a, b, what, but=None):
        bad = [k for k in set(a.t) | set(b.t) if k != but and a.get(k) != b.get(k)]
        if bad or a.d != b.d:
            raise Failed('%s: %s' % (what, ', '.join('[%#x] is %#x, expected %#x' % (k, a.get(k), b.get(k)) for k in sorted(bad))))
    def fail(self, what): raise Failed(what)
    def cover(self): pass

    def mod(self, name): return importlib.import_module(name)
    def attempt(self, fn, *a):
        try:
            return fn(*a), None
        except (Failed, Skip):
            raise
        except Exception as e:
            return None, e
    def printed(self, fn, *a):
        old = sys.stdout
        sys.stdout = io.StringIO()
        try:
            r = fn(*a)
            return sys.stdout.getvalue(), r
        finally:
            sys.stdout = old
    def obs(self, x): self.obslog.append(under(x))
    def reload(self):
        for n in list(sys.modules):
            if n == 'cmdis' or n.startswith('cmdis.'): del sys.modules[n]

def show(x):
    if isinstance(x, int) and not isinstance(x, bool): return '%d (%#x)' % (x, x)
    if isinstance(x, (str, bool, list, tuple, bytes, bytearray, type(None))): return repr(x)
    try: return '%s %s' % (type(x).__name__, x)
    except Exception: return type(x).__name__

def under(x):
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)): return x
    if isinstance(x, (bytes, bytearray)): return ['bytes'] + list(x)
    if isinstance(x, (list, tuple)): return [under(y) for y in x]
    return type(x).__name__
