"""Hash-consed bit-vector / Boolean / array terms with a normalising builder.

Every term denotes exactly one SMT term (to_z3); the builder only applies
equivalences of the theory of bit-vectors and arrays.  sx/selftest.py asks z3 to
prove, for randomly built expressions, that the normalised term equals the
literal one, so the rewriting is itself checked by the solver.
"""
import z3

class Term(object):
    __slots__ = ('op', 'a', 'w', 'h', 'z')

    def __repr__(self):
        return show(self)

TABLE = {}
COUNT = {'mul': 0}
RAW = [False]         # RAW[0]: build literal terms, no simplification (self test)

def reset():
    TABLE.clear()
    COUNT['mul'] = 0
    for t in (TRUE, FALSE):
        TABLE[(t.op, 0)] = t
        t.z = None

def _mk(op, w, *a):
    key = (op, w) + a
    t = TABLE.get(key)
    if t is None:
        t = Term()
        t.op = op; t.w = w; t.a = a; t.z = None
        t.h = hash((op, w) + tuple([x.h if type(x) is Term else x for x in a]))
        TABLE[key] = t
    return t

# ---- sorts: w > 0 bit-vector width, w == 0 Bool, w == (iw, ew) array
TRUE = _mk('true', 0)
FALSE = _mk('false', 0)

def show(t, d=6):
    if type(t) is not Term:
        return str(t)
    if t.op == 'c':
        return '%#x:%d' % (t.a[0], t.w)
    if t.op in ('v', 'av'):
        return t.a[0]
    if d == 0:
        return '...'
    return '(%s %s)' % (t.op, ' '.join(show(x, d - 1) if type(x) is Term else str(x) for x in t.a))

# ------------------------------------------------------------------ bit-vectors

def const(v, w):
    return _mk('c', w, v & ((1 << w) - 1))

def var(name, w):
    return _mk('v', w, name)

def is_c(t):
    return t.op == 'c'

def _raw(op, w, *a):
    return _mk(op, w, *a)

def cat(*parts):
    """Concatenation, most significant first."""
    if RAW[0]:
        parts = [p for p in parts if p is not None]
        return parts[0] if len(parts) == 1 else _mk('cat', sum(p.w for p in parts), *parts)
    out = []
    for p in parts:
        if p is None:
            continue
        if p.op == 'cat':
            for q in p.a:
                _push(out, q)
        else:
            _push(out, p)
    if len(out) == 1:
        return out[0]
    return _mk('cat', sum([p.w for p in out]), *out)

def _push(out, p):
    if out:
        l = out[-1]
        if p.op == 'c' and l.op == 'c':
            out[-1] = const((l.a[0] << p.w) | p.a[0], l.w + p.w)
            return
        if p.op == 'ext' and l.op == 'ext' and p.a[0] is l.a[0] and l.a[2] == p.a[1] + 1:
            # adjacent slices of one term
            out[-1] = _ext1(p.a[0], l.a[1], p.a[2])
            return
        if l.op == 'ite' and p.op == 'ite' and l.a[0] is p.a[0] and \
                l.a[1].op == 'c' and l.a[2].op == 'c' and p.a[1].op == 'c' and p.a[2].op == 'c':
            out[-1] = ite(l.a[0], cat(l.a[1], p.a[1]), cat(l.a[2], p.a[2]))
            return
    out.append(p)

def _ext1(x, hi, lo):
    if lo == 0 and hi == x.w - 1:
        return x
    return _mk('ext', hi - lo + 1, x, hi, lo)

def ext(x, hi, lo):
    w = hi - lo + 1
    assert 0 <= lo <= hi < x.w, (hi, lo, x.w)
    if RAW[0]:
        return _mk('ext', w, x, hi, lo)
    if w == x.w:
        return x
    op = x.op
    if op == 'c':
        return const(x.a[0] >> lo, w)
    if op == 'ext':
        return ext(x.a[0], hi + x.a[2], lo + x.a[2])
    if op == 'cat':
        parts = []
        pos = x.w
        for p in x.a:
            plo = pos - p.w
            if plo <= hi:
                # pos - 1 is the part's top bit, plo its lowest
                h = hi if hi < pos - 1 else pos - 1
                l = lo if lo > plo else plo
                parts.append(p if h - l + 1 == p.w else ext(p, h - plo, l - plo))
                if plo <= lo:
                    break
            pos = plo
        return parts[0] if len(parts) == 1 else cat(*parts)
    if op == 'bnot':
        return bnot(ext(x.a[0], hi, lo))
    if op in ('and', 'or', 'xor'):
        return _BW[op](ext(x.a[0], hi, lo), ext(x.a[1], hi, lo))
    if op == 'ite':
        return ite(x.a[0], ext(x.a[1], hi, lo), ext(x.a[2], hi, lo))
    if lo and hi < x.w - 1 and op in ('lin', 'mul'):
        return ext(ext(x, hi, 0), hi, lo)
    if lo == 0:
        if op == 'lin':
            return lin(w, x.a[0], [(c, ext(t, hi, 0)) for c, t in zip(x.a[1::2], x.a[2::2])])
        if op == 'mul':
            return mul(ext(x.a[0], hi, 0), ext(x.a[1], hi, 0))
    return _mk('ext', w, x, hi, lo)

def zext(x, w):
    return x if w == x.w else cat(const(0, w - x.w), x)

def sext(x, w):
    if w == x.w:
        return x
    s = ext(x, x.w - 1, x.w - 1)
    if s.op == 'c':
        return cat(const(-s.a[0], w - x.w), x)
    if w - x.w == 1:
        return cat(s, x)
    return cat(_rep(s, w - x.w), x)

def _rep(s, n):
    if RAW[0]:
        return cat(*([s] * n)) if n > 1 else s
    if s.op == 'c':
        return const(-s.a[0], n)
    return _mk('cat', n, *([s] * n)) if s.op != 'ite' else ite(s.a[0], _rep(s.a[1], n), _rep(s.a[2], n))

# ---- bitwise

def bnot(x):
    if RAW[0]:
        return _mk('bnot', x.w, x)
    op = x.op
    if op == 'c':
        return const(~x.a[0], x.w)
    if op == 'bnot':
        return x.a[0]
    if op == 'cat':
        return cat(*[bnot(p) for p in x.a])
    if op == 'ite' and x.a[1].op == 'c' and x.a[2].op == 'c':
        return ite(x.a[0], bnot(x.a[1]), bnot(x.a[2]))
    if op == 'lin':
        # ~t == -t - 1
        w = x.w
        return lin(w, -x.a[0] - 1, [(-c, t) for c, t in zip(x.a[1::2], x.a[2::2])])
    return _mk('bnot', x.w, x)

def _cuts(x):
    """Bit positions (exclusive of 0 and w) where x is naturally divided."""
    if x.op == 'cat':
        pos = x.w
        out = []
        for p in x.a[:-1]:
            pos -= p.w
            out.append(pos)
        if any(p.op == 'c' for p in x.a):
            pos = x.w
            for p in x.a:
                pos -= p.w
                if p.op == 'c':
                    out.extend([pos + q for q in _ccuts(p.a[0], p.w)])
        return out
    if x.op == 'c':
        return _ccuts(x.a[0], x.w)
    return []

def _ccuts(v, w):
    # positions where adjacent bits differ
    d = (v ^ (v >> 1)) & ((1 << (w - 1)) - 1)
    out = []
    while d:
        l = d & -d
        out.append(l.bit_length())
        d ^= l
    return out

def _bw(op, x, y):
    if RAW[0]:
        return _mk(op, x.w, x, y)
    if x.op == 'c' and y.op == 'c':
        a, b = x.a[0], y.a[0]
        return const(a & b if op == 'and' else a | b if op == 'or' else a ^ b, x.w)
    cuts = set(_cuts(x))
    cuts.update(_cuts(y))
    if not cuts:
        return _bw1(op, x, y)
    cuts = sorted(cuts, reverse=True)
    cuts.append(0)
    return cat(*[_bw1(op, a, b) for a, b in zip(_split(x, cuts), _split(y, cuts))])

def _split(x, cuts):
    """x divided at the given positions (descending, ending with 0)."""
    out = []
    parts = x.a if x.op == 'cat' else (x,)
    n = len(cuts)
    i = 0
    pos = x.w
    for p in parts:
        plo = pos - p.w
        hi = p.w - 1
        if cuts[i] == plo:
            out.append(p)
            i += 1
        else:
            con = p.a[0] if p.op == 'c' else None
            while i < n and cuts[i] >= plo:
                lo = cuts[i] - plo
                out.append(ext(p, hi, lo) if con is None else const(con >> lo, hi - lo + 1))
                hi = lo - 1
                i += 1
        pos = plo
    return out

def _bw1(op, x, y):
    w = x.w
    if x is y:
        return const(0, w) if op == 'xor' else x
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c':
        v = y.a[0]
        if v == 0:
            return y if op == 'and' else x
        if v == (1 << w) - 1:
            return x if op == 'and' else y if op == 'or' else bnot(x)
        if x.op == 'c':
            return _bw(op, x, y)
    if (x.op == 'bnot' and x.a[0] is y) or (y.op == 'bnot' and y.a[0] is x):
        return const(0, w) if op == 'and' else const(-1, w)
    if op == 'xor':
        if x.op == 'bnot' and y.op == 'bnot':
            return _bw(op, x.a[0], y.a[0])
        if x.op == 'bnot':
            return bnot(_bw(op, x.a[0], y))
        if y.op == 'bnot':
            return bnot(_bw(op, x, y.a[0]))
    if x.op == 'cat' or y.op == 'cat':
        return _bw(op, x, y)
    if y.h < x.h:
        x, y = y, x
    return _mk(op, w, x, y)

def band(x, y): return _bw('and', x, y)
def bor(x, y): return _bw('or', x, y)
def bxor(x, y): return _bw('xor', x, y)
_BW = {'and': band, 'or': bor, 'xor': bxor}

# ---- linear arithmetic: lin(w, c, [(k, t)...]) = c + sum k*t  (mod 2^w)

def lin(w, c, pairs):
    m = (1 << w) - 1
    acc = {}
    order = []
    todo = list(pairs)
    while todo:
        k, t = todo.pop()
        k &= m
        if k == 0:
            continue
        op = t.op
        if op == 'c':
            c += k * t.a[0]
        elif op == 'lin':
            c += k * t.a[0]
            for k2, t2 in zip(t.a[1::2], t.a[2::2]):
                todo.append((k * k2, t2))
        elif op == 'bnot':
            c -= k
            todo.append((-k, t.a[0]))
        else:
            if t in acc:
                acc[t] = (acc[t] + k) & m
            else:
                acc[t] = k
                order.append(t)
    c &= m
    items = [(t, acc[t]) for t in order if acc[t]]
    if not items:
        return const(c, w)
    if len(items) == 1:
        t, k = items[0]
        if k == 1 and c == 0:
            return t
        if k == m and c == m:
            return bnot(t)
        if k == m and c == 0 and t.op == 'cat' and len(t.a) == 2 and t.a[1].w == 1 and \
                t.a[0].op == 'c' and t.a[0].a[0] == 0:
            # 0 - bit: the bit everywhere
            return cat(*([t.a[1]] * w))
        if c == 0 and k & (k - 1) == 0:
            # multiplication by a power of two is a shift
            n = k.bit_length() - 1
            return cat(ext(t, w - n - 1, 0), const(0, n))
    items.sort(key=lambda p: p[0].h)
    flat = []
    for t, k in items:
        flat.append(k)
        flat.append(t)
    return _mk('lin', w, c, *flat)

def add(x, y):
    if RAW[0]:
        return _mk('add', x.w, x, y)
    return lin(x.w, 0, [(1, x), (1, y)])

def sub(x, y):
    if RAW[0]:
        return _mk('sub', x.w, x, y)
    return lin(x.w, 0, [(1, x), (-1, y)])

def neg(x):
    if RAW[0]:
        return _mk('sub', x.w, const(0, x.w), x)
    return lin(x.w, 0, [(-1, x)])

def mul(x, y):
    if RAW[0]:
        return _mk('mul', x.w, x, y)
    if x.op == 'c':
        return lin(x.w, 0, [(x.a[0], y)])
    if y.op == 'c':
        return lin(x.w, 0, [(y.a[0], x)])
    if x.op == 'lin' and x.a[0] == 0 and len(x.a) == 3:
        return lin(x.w, 0, [(x.a[1], mul(x.a[2], y))])
    if y.op == 'lin' and y.a[0] == 0 and len(y.a) == 3:
        return lin(x.w, 0, [(y.a[1], mul(x, y.a[2]))])
    if y.h < x.h:
        x, y = y, x
    COUNT['mul'] += 1
    return _mk('mul', x.w, x, y)

def products(t):
    """The products in t, inner ones first."""
    out, seen, todo = [], set(), [(t, False)]
    while todo:
        x, done = todo.pop()
        if done:
            out.append(x)
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'mul':
            todo.append((x, True))
        todo.extend([(y, False) for y in x.a if type(y) is Term])
    return out

def udiv(x, y):
    if not RAW[0] and y.op == 'c' and y.a[0]:
        v = y.a[0]
        if x.op == 'c':
            return const(x.a[0] // v, x.w)
        if v & (v - 1) == 0:
            return lshrc(x, v.bit_length() - 1)
    n = _lead(x, y)
    if n:
        k = x.w - n
        return zext(udiv(ext(x, k - 1, 0), ext(y, k - 1, 0)), x.w)
    return _mk('udiv', x.w, x, y)

def _lead(x, y):
    """Common leading zero bits (division does not need them).  Division by
    zero is excluded by the callers' guard only when a bit remains."""
    if RAW[0]: return 0
    n = min(_lz(x), _lz(y), x.w - 1)
    # the all-ones result of x / 0 depends on the width, so y must not be
    # known to be zero; callers only divide after excluding it
    return n if DIVNZ[0] else 0

DIVNZ = [False]

def urem(x, y):
    if not RAW[0] and y.op == 'c' and y.a[0]:
        v = y.a[0]
        if x.op == 'c':
            return const(x.a[0] % v, x.w)
        if v & (v - 1) == 0:
            n = v.bit_length() - 1
            return const(0, x.w) if n == 0 else zext(ext(x, n - 1, 0), x.w)
    n = _lead(x, y)
    if n:
        k = x.w - n
        return zext(urem(ext(x, k - 1, 0), ext(y, k - 1, 0)), x.w)
    return _mk('urem', x.w, x, y)

def lshrc(x, n):
    if n == 0:
        return x
    if n >= x.w:
        return const(0, x.w)
    return cat(const(0, n), ext(x, x.w - 1, n))

def shlc(x, n):
    if n == 0:
        return x
    if n >= x.w:
        return const(0, x.w)
    return cat(ext(x, x.w - n - 1, 0), const(0, n))

def shl(x, y):
    if not RAW[0] and y.op == 'c':
        return shlc(x, y.a[0])
    return _mk('shl', x.w, x, y)

def lshr(x, y):
    if not RAW[0] and y.op == 'c':
        return lshrc(x, y.a[0])
    return _mk('lshr', x.w, x, y)

def ashr(x, y):
    if not RAW[0] and y.op == 'c':
        n = min(y.a[0], x.w - 1)
        return sext(ext(x, x.w - 1, n), x.w)
    return _mk('ashr', x.w, x, y)

def ite(c, x, y):
    if RAW[0]:
        return _mk('ite', x.w, c, x, y)
    if c is TRUE or x is y:
        return x
    if c is FALSE:
        return y
    if c.op == 'not':
        return ite(c.a[0], y, x)
    if x.w == 0:
        return bor_(band_(c, x), band_(bnot_(c), y))
    if x.op == 'ite' and x.a[0] is c:
        x = x.a[1]
    if y.op == 'ite' and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    if c.op == 'eq' and c.a[0].w == 1 and c.a[1].op == 'c' and x.op == 'c' and y.op == 'c' and \
            isinstance(x.w, int) and x.w > 1 and (x.a[0] == 0 or y.a[0] == 0) and x.a[0] + y.a[0] == (1 << x.w) - 1:
        # ite(b == 1, -1, 0)
        return _rep(c.a[0] if (x.a[0] != 0) == (c.a[1].a[0] == 1) else bnot(c.a[0]), x.w)
    if x.w == 1 and c.op == 'eq' and c.a[0].w == 1 and c.a[1].op == 'c' and x.op == 'c' and y.op == 'c':
        # ite(b == 1, 1, 0)
        return c.a[0] if x.a[0] == c.a[1].a[0] else bnot(c.a[0])
    if x.w and isinstance(x.w, int) and x.op == 'cat' and y.op == 'cat' and len(x.a) == len(y.a) and \
            all(p.w == q.w for p, q in zip(x.a, y.a)) and any(p is q for p, q in zip(x.a, y.a)):
        return cat(*[ite(c, p, q) for p, q in zip(x.a, y.a)])
    return _mk('ite', x.w, c, x, y)

# ------------------------------------------------------------------- Booleans

def bnot_(x):
    if RAW[0]:
        return _mk('not', 0, x)
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.op == 'not': return x.a[0]
    return _mk('not', 0, x)

def _nary(op, unit, zero, xs):
    if RAW[0]:
        return _mk(op, 0, *xs) if xs else unit
    out = []
    seen = set()
    for x in xs:
        for y in (x.a if x.op == op else (x,)):
            if y is zero:
                return zero
            if y is unit or y in seen:
                continue
            seen.add(y)
            out.append(y)
    for y in out:
        if y.op == 'not' and y.a[0] in seen:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.h)
    return _mk(op, 0, *out)

def band_(*xs): return _nary('band', TRUE, FALSE, xs)
def bor_(*xs): return _nary('bor', FALSE, TRUE, xs)
def implies(a, b): return bor_(bnot_(a), b)

def iff(a, b):
    if RAW[0]: return _mk('iff', 0, a, b)
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return bnot_(b)
    if b is FALSE: return bnot_(a)
    n = False
    if a.op == 'not': a = a.a[0]; n = not n
    if b.op == 'not': b = b.a[0]; n = not n
    if a is b: return FALSE if n else TRUE
    if b.h < a.h: a, b = b, a
    t = _mk('iff', 0, a, b)
    return bnot_(t) if n else t

def eq(x, y):
    if x.w == 0:
        return iff(x, y)
    if RAW[0]:
        return _mk('eq', 0, x, y)
    if x is y:
        return TRUE
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c':
        if x.op == 'c':
            return TRUE if x.a[0] == y.a[0] else FALSE
        return _eqc(x, y)
    if x.op == 'lin' or y.op == 'lin':
        d = lin(x.w, 0, [(1, x), (-1, y)])
        if d.op == 'c':
            return TRUE if d.a[0] == 0 else FALSE
    if x.op == 'cat' or y.op == 'cat':
        cx, cy = set(_pcuts(x)), set(_pcuts(y))
        if x.op == 'cat' and y.op == 'cat':
            cuts = cx & cy
        else:
            # split off constant parts only
            cuts = set()
        k = _constcuts(x) | _constcuts(y)
        cuts |= k
        if cuts:
            out = []
            hi = x.w - 1
            for c in sorted(cuts, reverse=True) + [0]:
                e = eq(ext(x, hi, c), ext(y, hi, c))
                if e is FALSE:
                    return FALSE
                out.append(e)
                hi = c - 1
            return band_(*out)
    elif x.op == 'bnot' and y.op == 'bnot':
        return eq(x.a[0], y.a[0])
    if x.w > 1 or x.op == 'bnot' or y.op == 'bnot':
        d = lin(x.w, 0, [(1, x), (-1, y)])
        if d.op == 'c':
            return TRUE if d.a[0] == 0 else FALSE
        if d.op == 'lin' and len(d.a) == 3 and (d.a[1] == 1 or d.a[1] == (1 << x.w) - 1):
            k = -d.a[0] if d.a[1] == 1 else d.a[0]
            return eq(d.a[2], const(k, x.w))
        if d.op != 'lin':
            if d.op == 'bnot':
                return eq(d.a[0], const(-1, x.w))
            if d is not x and d.op not in ('cat',):
                return eq(d, const(0, x.w))
    if x.op == 'ite' and x.a[1].op == 'c' and x.a[2].op == 'c' and y.op == 'ite' and y.a[1].op == 'c' and y.a[2].op == 'c':
        return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if y.h < x.h:
        x, y = y, x
    return _mk('eq', 0, x, y)

def _pcuts(x):
    if x.op != 'cat':
        return []
    pos = x.w
    out = []
    for p in x.a[:-1]:
        pos -= p.w
        out.append(pos)
    return out

def _constcuts(x):
    out = set()
    if x.op == 'cat':
        pos = x.w
        for p in x.a:
            if p.op == 'c':
                if pos != x.w: out.add(pos)
                if pos - p.w: out.add(pos - p.w)
            pos -= p.w
    return out

def _eqc(x, y):
    v = y.a[0]
    op = x.op
    if op == 'cat':
        out = []
        pos = x.w
        for p in x.a:
            pos -= p.w
            e = eq(p, const(v >> pos, p.w))
            if e is FALSE:
                return FALSE
            out.append(e)
        return band_(*out)
    if op == 'bnot':
        return eq(x.a[0], const(~v, x.w))
    if op == 'lin':
        if len(x.a) == 3:
            if x.a[1] == 1:
                return eq(x.a[2], const(v - x.a[0], x.w))
            if x.a[1] == (1 << x.w) - 1:
                return eq(x.a[2], const(x.a[0] - v, x.w))
    elif op == 'ite':
        a, b = x.a[1], x.a[2]
        if a.op == 'c' or b.op == 'c':
            return ite(x.a[0], eq(a, y), eq(b, y))
    if x.w == 1 and v == 0:
        return bnot_(_mk('eq', 0, x, const(1, 1)))
    return _mk('eq', 0, x, y)

def _lz(x):
    """Number of leading bits known to be zero."""
    if x.op == 'c':
        return x.w - x.a[0].bit_length()
    if x.op == 'cat':
        n = 0
        for p in x.a:
            k = _lz(p)
            n += k
            if k < p.w:
                break
        return n
    return 0

def ult(x, y):
    if RAW[0]:
        return _mk('ult', 0, x, y)
    if x is y:
        return FALSE
    if x.op == 'c' and y.op == 'c':
        return TRUE if x.a[0] < y.a[0] else FALSE
    n = min(_lz(x), _lz(y))
    if n >= x.w:
        return FALSE
    if n:
        x, y = ext(x, x.w - 1 - n, 0), ext(y, y.w - 1 - n, 0)
        return ult(x, y)
    m = (1 << x.w) - 1
    if y.op == 'c':
        v = y.a[0]
        if v == 0:
            return FALSE
        if x.w - _lz(x) < v.bit_length() and (1 << (x.w - _lz(x))) <= v:
            return TRUE
        if v == 1:
            return eq(x, const(0, x.w))
        if v == m:
            return bnot_(eq(x, y))
        if v & (v - 1) == 0:
            n = v.bit_length() - 1
            return eq(ext(x, x.w - 1, n), const(0, x.w - n))
    if x.op == 'c':
        v = x.a[0]
        if v == m:
            return FALSE
        if v == 0:
            return bnot_(eq(y, x))
        if y.w - _lz(y) < x.w and v >= (1 << (y.w - _lz(y))) - 1:
            return FALSE
        if (v + 1) & v == 0:
            n = v.bit_length()
            return bnot_(eq(ext(y, y.w - 1, n), const(0, y.w - n)))
    if x.op == 'cat' and y.op == 'cat':
        # strip an equal most significant part
        p, q = x.a[0], y.a[0]
        if p is q:
            return ult(ext(x, x.w - p.w - 1, 0), ext(y, x.w - p.w - 1, 0))
        # strip an equal least significant part
        p, q = x.a[-1], y.a[-1]
        if p is q:
            return ult(ext(x, x.w - 1, p.w), ext(y, x.w - 1, p.w))
    return _mk('ult', 0, x, y)

def slt(x, y):
    if RAW[0]:
        return _mk('slt', 0, x, y)
    if x is y:
        return FALSE
    w = x.w
    sx, sy = ext(x, w - 1, w - 1), ext(y, w - 1, w - 1)
    if sx.op == 'c' and sy.op == 'c':
        if sx.a[0] != sy.a[0]:
            return TRUE if sx.a[0] else FALSE
        if w == 1:
            return FALSE
        return ult(ext(x, w - 2, 0), ext(y, w - 2, 0))
    if y.op == 'c' and y.a[0] == 0:
        return eq(sx, const(1, 1))
    return _mk('slt', 0, x, y)

# --------------------------------------------------------------------- arrays

def avar(name, iw, ew):
    return _mk('av', (iw, ew), name)

def acon(iw, v):
    return _mk('acon', (iw, v.w), v)

def distinct(x, y):
    """Syntactically provably different."""
    e = eq(x, y)
    return e is FALSE

def select(a, i):
    if RAW[0]:
        return _mk('sel', a.w[1], a, i)
    while a.op == 'store':
        e = eq(a.a[1], i)
        if e is TRUE:
            return a.a[2]
        if e is FALSE:
            a = a.a[0]
            continue
        break
    if a.op == 'acon':
        return a.a[0]
    return _mk('sel', a.w[1], a, i)

def store(a, i, v):
    if RAW[0]:
        return _mk('store', a.w, a, i, v)
    if v.op == 'sel' and v.a[1] is i and v.a[0] is a:
        return a
    if a.op == 'store':
        e = eq(a.a[1], i)
        if e is TRUE:
            return store(a.a[0], i, v)
        if e is FALSE and i.h < a.a[1].h:
            # canonical order among provably different indices
            return _mk('store', a.w, store(a.a[0], i, v), a.a[1], a.a[2])
    return _mk('store', a.w, a, i, v)

# ------------------------------------------------------------------ evaluation

class Model(object):
    """Concrete values for variables; arrays are (default, dict)."""
    __slots__ = ('vars', 'arrays', 'memo')
    def __init__(self, vars=None, arrays=None):
        self.vars = vars or {}
        self.arrays = arrays or {}
        self.memo = {}

    def get(self, name):
        return self.vars.get(name, 0)

def _ev_array(a, m):
    """Follow a store chain: returns function idx -> value lazily."""
    over = {}
    while True:
        if a.op == 'store':
            i = ev(a.a[1], m)
            if i not in over:
                over[i] = a.a[2]
            a = a.a[0]
        elif a.op == 'ite':
            a = a.a[1] if ev(a.a[0], m) else a.a[2]
        else:
            return over, a

def ev(t, m):
    memo = m.memo
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    a = t.a
    if op == 'c':
        return a[0]
    if op == 'v':
        r = m.get(a[0])
        if t.w == 0:
            r = bool(r)
    elif op == 'ext':
        r = (ev(a[0], m) >> a[2]) & ((1 << t.w) - 1)
    elif op == 'cat':
        r = 0
        for p in a:
            r = (r << p.w) | ev(p, m)
    elif op == 'lin':
        r = a[0]
        for k in range(1, len(a), 2):
            r += a[k] * ev(a[k + 1], m)
        r &= (1 << t.w) - 1
    elif op == 'eq':
        if isinstance(a[0].w, tuple):
            raise NotImplementedError
        r = ev(a[0], m) == ev(a[1], m)
    elif op == 'not':
        r = not ev(a[0], m)
    elif op == 'band':
        r = all([ev(x, m) for x in a])
    elif op == 'bor':
        r = any([ev(x, m) for x in a])
    elif op == 'iff':
        r = ev(a[0], m) == ev(a[1], m)
    elif op == 'true':
        return True
    elif op == 'false':
        return False
    elif op == 'and':
        r = ev(a[0], m) & ev(a[1], m)
    elif op == 'or':
        r = ev(a[0], m) | ev(a[1], m)
    elif op == 'xor':
        r = ev(a[0], m) ^ ev(a[1], m)
    elif op == 'bnot':
        r = ~ev(a[0], m) & ((1 << t.w) - 1)
    elif op == 'ult':
        r = ev(a[0], m) < ev(a[1], m)
    elif op == 'slt':
        r = _sg(ev(a[0], m), a[0].w) < _sg(ev(a[1], m), a[1].w)
    elif op == 'ite':
        r = ev(a[1], m) if ev(a[0], m) else ev(a[2], m)
    elif op == 'sel':
        i = ev(a[1], m)
        over, base = _ev_array(a[0], m)
        if i in over:
            r = ev(over[i], m)
        elif base.op == 'acon':
            r = ev(base.a[0], m)
        else:
            d, tab = m.arrays.get(base.a[0], (0, {}))
            r = tab.get(i, d)
    elif op == 'add':
        r = (ev(a[0], m) + ev(a[1], m)) & ((1 << t.w) - 1)
    elif op == 'sub':
        r = (ev(a[0], m) - ev(a[1], m)) & ((1 << t.w) - 1)
    elif op == 'mul':
        r = (ev(a[0], m) * ev(a[1], m)) & ((1 << t.w) - 1)
    elif op == 'shl':
        s = ev(a[1], m)
        r = 0 if s >= t.w else (ev(a[0], m) << s) & ((1 << t.w) - 1)
    elif op == 'lshr':
        s = ev(a[1], m)
        r = 0 if s >= t.w else ev(a[0], m) >> s
    elif op == 'ashr':
        s = min(ev(a[1], m), t.w - 1)
        r = (_sg(ev(a[0], m), t.w) >> s) & ((1 << t.w) - 1)
    elif op == 'udiv':
        d = ev(a[1], m)
        r = (1 << t.w) - 1 if d == 0 else ev(a[0], m) // d
    elif op == 'urem':
        d = ev(a[1], m)
        r = ev(a[0], m) if d == 0 else ev(a[0], m) % d
    else:
        raise NotImplementedError(op)
    memo[t] = r
    return r

def _sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v

# ------------------------------------------------------------------------- z3

def to_z3(t):
    z = t.z
    if z is not None:
        return z
    op = t.op
    a = t.a
    if op == 'c':
        z = z3.BitVecVal(a[0], t.w)
    elif op == 'v':
        z = z3.BitVec(a[0], t.w) if t.w else z3.Bool(a[0])
    elif op == 'av':
        z = z3.Array(a[0], z3.BitVecSort(t.w[0]), z3.BitVecSort(t.w[1]))
    elif op == 'acon':
        z = z3.K(z3.BitVecSort(t.w[0]), to_z3(a[0]))
    elif op == 'true':
        z = z3.BoolVal(True)
    elif op == 'false':
        z = z3.BoolVal(False)
    elif op == 'ext':
        z = z3.Extract(a[1], a[2], to_z3(a[0]))
    elif op == 'cat':
        z = z3.Concat(*[to_z3(x) for x in a])
    elif op == 'lin':
        m = (1 << t.w) - 1
        z = None
        for k in range(1, len(a), 2):
            c, x = a[k], to_z3(a[k + 1])
            if c == 1:
                z = x if z is None else z + x
            elif c == m:
                z = -x if z is None else z - x
            else:
                x = z3.BitVecVal(c, t.w) * x
                z = x if z is None else z + x
        if a[0]:
            z = z + z3.BitVecVal(a[0], t.w)
    elif op == 'sel':
        z = z3.Select(to_z3(a[0]), to_z3(a[1]))
    elif op == 'store':
        z = z3.Store(to_z3(a[0]), to_z3(a[1]), to_z3(a[2]))
    elif op == 'band':
        z = z3.And(*[to_z3(x) for x in a])
    elif op == 'bor':
        z = z3.Or(*[to_z3(x) for x in a])
    else:
        f = _Z[op]
        z = f(*[to_z3(x) for x in a])
    t.z = z
    return z

_Z = {'eq': lambda x, y: x == y, 'not': z3.Not, 'iff': lambda x, y: x == y,
      'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
      'bnot': lambda x: ~x, 'ult': z3.ULT, 'slt': lambda x, y: x < y,
      'ite': z3.If, 'add': lambda x, y: x + y, 'sub': lambda x, y: x - y,
      'mul': lambda x, y: x * y, 'shl': lambda x, y: x << y, 'lshr': z3.LShR,
      'ashr': lambda x, y: x >> y, 'udiv': z3.UDiv, 'urem': z3.URem}

def variables(t, acc=None, seen=None):
    """Names -> term of every variable in t."""
    if acc is None:
        acc, seen = {}, set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('v', 'av'):
            acc[x.a[0]] = x
        else:
            for y in x.a:
                if type(y) is Term:
                    todo.append(y)
    return acc
