"""Checks steps of the term normaliser: while switched on, every constructor call
made by the value layer is recorded, and z3 is asked whether the normal form
returned equals the literal operation on the arguments, for all values."""
import time
import z3
from . import terms as T

def _nn(x, y): return T.to_z3(y) != 0

# literal meaning of each constructor, on z3 arguments
def _z(*xs): return [T.to_z3(x) for x in xs]
def _cat(*p):
    z = _z(*[x for x in p if x is not None])
    return z[0] if len(z) == 1 else z3.Concat(*z)
LIT = {
    'cat': _cat,
    'ext': lambda x, hi, lo: z3.Extract(hi, lo, T.to_z3(x)),
    'zext': lambda x, w: z3.ZeroExt(w - x.w, T.to_z3(x)),
    'sext': lambda x, w: z3.SignExt(w - x.w, T.to_z3(x)),
    'bnot': lambda x: ~T.to_z3(x),
    'band': lambda x, y: T.to_z3(x) & T.to_z3(y),
    'bor': lambda x, y: T.to_z3(x) | T.to_z3(y),
    'bxor': lambda x, y: T.to_z3(x) ^ T.to_z3(y),
    'add': lambda x, y: T.to_z3(x) + T.to_z3(y),
    'sub': lambda x, y: T.to_z3(x) - T.to_z3(y),
    'neg': lambda x: -T.to_z3(x),
    'mul': lambda x, y: T.to_z3(x) * T.to_z3(y),
    'udiv': lambda x, y: z3.UDiv(T.to_z3(x), T.to_z3(y)),
    'urem': lambda x, y: z3.URem(T.to_z3(x), T.to_z3(y)),
    'shl': lambda x, y: T.to_z3(x) << T.to_z3(y),
    'lshr': lambda x, y: z3.LShR(T.to_z3(x), T.to_z3(y)),
    'ashr': lambda x, y: T.to_z3(x) >> T.to_z3(y),
    'ite': lambda c, x, y: z3.If(T.to_z3(c), T.to_z3(x), T.to_z3(y)),
    'bnot_': lambda x: z3.Not(T.to_z3(x)),
    'band_': lambda *x: z3.And(*_z(*x)),
    'bor_': lambda *x: z3.Or(*_z(*x)),
    'iff': lambda x, y: T.to_z3(x) == T.to_z3(y),
    'eq': lambda x, y: T.to_z3(x) == T.to_z3(y),
    'ult': lambda x, y: z3.ULT(T.to_z3(x), T.to_z3(y)),
    'slt': lambda x, y: T.to_z3(x) < T.to_z3(y),
    'select': lambda a, i: z3.Select(T.to_z3(a), T.to_z3(i)),
    'store': lambda a, i, v: z3.Store(T.to_z3(a), T.to_z3(i), T.to_z3(v)),
}
ORIG = {n: getattr(T, n) for n in LIT}

class Certifier(object):
    def __init__(self):
        self.done = 0
        self.trivial = 0
        self.bad = []
        self.unknown = 0
        self.seen = set()
        self.log = []
        self.depth = 0

    def on(self):
        for n, f in ORIG.items():
            setattr(T, n, self._wrap(n, f))

    def off(self):
        for n, f in ORIG.items():
            setattr(T, n, f)

    def _wrap(self, n, f):
        def g(*a):
            if self.depth:
                return f(*a)
            self.depth = 1
            try:
                r = f(*a)
            finally:
                self.depth = 0
            k = (n, a)
            if k not in self.seen:
                self.seen.add(k)
                self.log.append((n, a, r))
            return r
        return g

    def settle(self, seconds):
        """Discharge the recorded steps, for at most the given time."""
        end = time.time() + seconds
        s = z3.Solver()
        s.set('timeout', 500)
        log, self.log = self.log, []
        while log and time.time() < end:
            n, a, r = log.pop()
            try:
                lit = LIT[n](*a)
            except (z3.Z3Exception, TypeError):
                continue
            zr = T.to_z3(r)
            if lit.eq(zr):
                self.trivial += 1
                continue
            s.push()
            if n in ('udiv', 'urem'): s.add(T.to_z3(a[1]) != 0)
            s.add(lit != zr)
            c = s.check()
            s.pop()
            if c == z3.unsat: self.done += 1
            elif c == z3.sat: self.bad.append('%s%s -> %s' % (n, tuple(T.show(x) if isinstance(x, T.Term) else x for x in a), T.show(r)))
            else: self.unknown += 1
