from sx.scen import Scen
from checks.common import *

BOUNDS = {
    'quick': 'width pairs over 1..8, 16, 32, 33, 64, 65; integers in [-2^(width+2), 2^(width+2)]; triples over widths '
             '1..4, 32',
    'thorough': 'width pairs over 0..40, 64, 65; triples over widths 1..9, 32, 33, 64',
}
OUTSIDE = 'widths not listed; negative integers against bit strings of fewer than two bits'

def truth(S, c, what):
    """The result of a comparison is a truth value."""
    S.check(type(c) is bool, what + ' is a truth value')
    return c

def pairs(ps):
    def fn(S):
        w, w2 = S.choice('widths', ps)
        a, av = mkbs(S, 'a', w)
        b, bv = mkbs(S, 'b', w2)
        if w == w2:
            eq = av == bv
        else:
            eq = False
        lt = S.or_(av < bv, av == bv) if w < w2 else av < bv
        S.eq(a == b, eq, 'equality')
        S.eq(a != b, S.not_(eq), 'inequality')
        S.eq(a < b, lt, 'less')
        S.eq(a <= b, S.or_(lt, eq), 'less or equal')
        S.eq(a > b, S.not_(S.or_(lt, eq)), 'greater')
        S.eq(a >= b, S.not_(lt), 'greater or equal')
        if w == w2 and S.branch(eq):
            S.check(hash(a) == hash(b), 'equal bit strings hash alike')
        S.check(hash(a) == hash(a), 'hash is stable')
        same_bs(S, a, w, av, 'left operand'); same_bs(S, b, w2, bv, 'right operand')
    return fn

def triples(ws):
    def fn(S):
        xs = []
        for n in 'abc':
            w = S.choice('w' + n, ws)
            xs.append(mkbs(S, n, w)[0])
        a, b, c = xs
        if S.branch(a <= b) and S.branch(b <= c):
            S.check(a <= c, 'order is transitive')
        if S.branch(a == b):
            S.check((a == c) == (b == c), 'equality is transitive')
            S.check((a < c) == (b < c), 'order respects equality')
        S.cover()
    return fn

def ints(ws, op):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        n = S.int('n', -(1 << (w + 2)), 1 << (w + 2))
        if w < 2: S.assume(n >= 0)
        x = S.ite(n < 0, sgn(S, av, w), av)
        if op == 'eq':
            S.eq(a == n, x == n, 'equals an integer')
            S.eq(a != n, x != n, 'differs from an integer')
            S.eq(n == a, x == n, 'an integer equals')
            S.eq(n != a, x != n, 'an integer differs')
        else:
            S.eq(a < n, x < n, 'less than an integer')
            S.eq(a <= n, x <= n, 'at most an integer')
            S.eq(a > n, x > n, 'greater than an integer')
            S.eq(a >= n, x >= n, 'at least an integer')
            S.eq(n < a, n < x, 'integer less')
            S.eq(n <= a, n <= x, 'integer at most')
            S.eq(n > a, n > x, 'integer greater')
            S.eq(n >= a, n >= x, 'integer at least')
        same_bs(S, a, w, av, 'operand')
    return fn

def texts(ps):
    def fn(S):
        w, w2 = S.choice('widths', ps)
        a, av = mkbs(S, 'a', w)
        bv = S.bv('b', w2)
        t = bintext(bv, w2)
        eq = av == bv if w == w2 else False
        lt = S.or_(av < bv, av == bv) if w < w2 else av < bv
        S.eq(a == t, eq, 'equals text')
        S.eq(a != t, S.not_(eq), 'differs from text')
        S.eq(a < t, lt, 'less than text')
        S.eq(a <= t, S.or_(lt, eq), 'at most text')
        S.eq(a > t, S.not_(S.or_(lt, eq)), 'greater than text')
        S.eq(a >= t, S.not_(lt), 'at least text')
        same_bs(S, a, w, av, 'operand')
    return fn

class Foreign(object):
    pass

def foreign(S):
    w = S.choice('width', (1, 4, 32))
    a, av = mkbs(S, 'a', w)
    o = S.choice('other', (None, 2.5, [1], (1, 0), Foreign(), {}))
    S.eq(a == o, False, 'equality with a foreign type')
    S.eq(a != o, True, 'inequality with a foreign type')
    S.eq(o == a, False, 'equality of a foreign type')
    S.eq(o != a, True, 'inequality of a foreign type')
    for f in (lambda: a < o, lambda: a <= o, lambda: a > o, lambda: a >= o):
        r, e = S.attempt(f)
        S.check(type(e) is TypeError, 'ordering against a foreign type is rejected')
    same_bs(S, a, w, av, 'operand')

def hashes(ws):
    """Equal however they were made."""
    def fn(S):
        B = bsmod(S).bitstring
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        how = S.choice('how', ('copy', 'text', 'bits', 'ops', 'slice'))
        if how == 'copy': b = B(a)
        elif how == 'text': b = B(bintext(av, w))
        elif how == 'bits': b = B([(av >> (w - 1 - k)) & 1 for k in range(w)])
        elif how == 'slice': b = (a % a)[0:w]
        else:
            b = ~a
            b.invert()
        S.eq(a == b, True, 'equal')
        S.check(hash(a) == hash(b), 'equal bit strings hash alike')
    return fn

def scenarios(tier):
    q = tier == 'quick'
    ws = tuple(range(1, 9)) + (16, 32, 33, 64, 65) if q else tuple(range(0, 41)) + (64, 65)
    ps = [(a, b) for a in ws for b in ws]
    tw = (1, 2, 3, 4, 32) if q else tuple(range(1, 10)) + (32, 33, 64)
    nz = tuple(w for w in ws if w)
    tps = [(a, b) for a in nz for b in nz]
    if q: tps = [p for p in tps if p[1] <= 8 or p[1] == 32]
    return [Scen('pairs', pairs(ps)), Scen('triples', triples(tw)), Scen('int-equality', ints(nz, 'eq')),
            Scen('int-order', ints(nz, 'order')), Scen('text', texts(tps)), Scen('foreign', foreign),
            Scen('hash', hashes(nz if q else tuple(w for w in nz if w < 34)))]
