from sx.scen import Scen
from checks.common import *

BOUNDS = {
    'quick': 'widths 1..9, 12, 16, 31..33, 63..65; integers in [-2^31, 2^70]; texts and bit lists of 0..12, 16, 32, 33 '
             'elements; byte arrays of 0..9 bytes',
    'thorough': 'widths 1..66, 96, 128; integers in [-2^31, 2^130]; texts and bit lists of 0..66 elements; byte arrays '
                'of 0..17 bytes',
}
OUTSIDE = 'widths and lengths not listed; integers below -2^31 without a width; text other than binary digits'

def from_int(ws, lo, hi):
    def fn(S):
        B = bsmod(S).bitstring
        n = S.int('n', lo, hi)
        w = S.choice('width', (None,) + ws)
        if w is None:
            r = B(n)
            w = 64 if S.branch(n >= (1 << 32)) else 32
        else:
            r = B(n, w) if S.choice('how', (0, 1)) else B(n, width=w)
        is_bs(S, r, w, n & ((1 << w) - 1), 'from an integer')
        S.eq(r.mask, (1 << w) - 1, 'mask')
    return fn

def boundary(S):
    """Integers around the two automatic widths."""
    B = bsmod(S).bitstring
    base = S.choice('base', (0, 1 << 31, 1 << 32, 1 << 33, 1 << 63, 1 << 64))
    d = S.int('d', -3, 3)
    n = base + d
    S.assume(n >= 0)
    r = B(n)
    w = 64 if S.branch(n >= (1 << 32)) else 32
    is_bs(S, r, w, n & ((1 << w) - 1), 'from an integer')

def from_text(lens):
    def fn(S):
        B = bsmod(S).bitstring
        n = S.choice('n', lens)
        v = S.bv('v', n) if n else 0
        r = B(bintext(v, n))
        is_bs(S, r, n, v, 'from text')
        w = S.choice('width', (None, 1, 8, n, n + 1, n + 5))
        if w is not None:
            is_bs(S, B(bintext(v, n), w), w, v & ((1 << w) - 1), 'from text, with a width')
    return fn

def from_bits(lens, kind):
    def fn(S):
        B = bsmod(S).bitstring
        n = S.choice('n', lens)
        v = S.bv('v', n) if n else 0
        src = [(v >> (n - 1 - k)) & 1 for k in range(n)]
        if kind == 'tuple': src = tuple(src)
        r = B(src)
        is_bs(S, r, n, v, 'from a bit ' + kind)
        S.eq(len(src), n, 'source length')
    return fn

def from_bytes(lens):
    def fn(S):
        B = bsmod(S).bitstring
        n = S.choice('n', lens)
        b = S.bytes('b', n)
        v = 0
        for k in range(n): v = v | (b[k] << (8 * k))
        r = B(b)
        is_bs(S, r, 8 * n, v, 'from a byte array')
        for k in range(n): b[k] = 0
        is_bs(S, r, 8 * n, v, 'after changing the byte array')
    return fn

def copies(ws):
    def fn(S):
        B = bsmod(S).bitstring
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        w2 = S.choice('w2', (None, 1, w, w + 1, w + 7))
        c = B(a) if w2 is None else B(a, w2)
        w2 = w if w2 is None else w2
        cv = av & ((1 << w2) - 1)
        is_bs(S, c, w2, cv, 'copy')
        same_bs(S, a, w, av, 'copied bit string')
        c.invert()
        same_bs(S, a, w, av, 'after changing the copy')
        is_bs(S, c, w2, cv ^ ((1 << w2) - 1), 'changed copy')
        d = B(a)
        a.value = 0
        a.width = w + 2
        is_bs(S, d, w, av, 'copy after changing the original')
    return fn

def setters(ws, lo, hi):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        n = S.int('n', lo, hi)
        a.value = n
        is_bs(S, a, w, n & ((1 << w) - 1), 'after setting the value')
        w2 = S.choice('w2', (1, w, w + 1, w + 9, max(1, w - 1)))
        a.width = w2
        v2 = n & ((1 << w) - 1) & ((1 << w2) - 1)
        is_bs(S, a, w2, v2, 'after setting the width')
        S.eq(a.mask, (1 << w2) - 1, 'mask')
        b, bv = mkbs(S, 'b', 5)
        r = a.set(b)
        is_bs(S, a, 5, bv, 'after set()')
        S.eq(a.mask, 31, 'mask')
        a.invert()
        same_bs(S, b, 5, bv, 'source of set()')
    return fn

def render(ws):
    def fn(S):
        B = bsmod(S).bitstring
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        how = S.choice('how', ('binary', 'bytes', 2, 8, 10, 16, 'repr', 'str'))
        if how == 'binary':
            t = a.binary_string
            S.eq(len(t), w, 'digits')
            S.eq(t, bintext(av, w), 'binary text')
            is_bs(S, B(t), w, av, 'binary text converted back')
        elif how == 'bytes':
            b = a.bytes
            n = (w + 7) // 8
            S.eq(len(b), n, 'bytes')
            for k in range(n):
                S.eq(b[k], (av >> (8 * k)) & 0xff, 'byte')
            is_bs(S, B(b, w), w, av, 'bytes converted back')
            if n: b[0] = 0
        else:
            t = repr(a) if how == 'repr' else str(a) if how == 'str' else a.base_string(how)
            base, letter = {8: (8, 'o'), 10: (10, 'd'), 16: (16, 'h')}.get(how, (2, 'b'))
            head = "%d'%s" % (w, letter)
            S.eq(t[:len(head)], head, 'literal prefix')
            if how == 16: S.eq(a.base_string(), t, 'hexadecimal is the default')
            digits = t[len(head):]
            S.eq(int(digits, base), av, 'literal value')
        same_bs(S, a, w, av, 'after rendering')
    return fn

def scenarios(tier):
    q = tier == 'quick'
    ws = tuple(range(1, 10)) + (12, 16, 31, 32, 33, 63, 64, 65) if q else tuple(range(1, 67)) + (96, 128)
    lens = tuple(range(0, 13)) + (16, 32, 33) if q else tuple(range(0, 67))
    hi = 1 << (70 if q else 130)
    return [Scen('from-int', from_int(ws, -(1 << 31), hi)), Scen('from-int-boundary', boundary),
            Scen('from-text', from_text(lens)), Scen('from-list', from_bits(lens, 'list')),
            Scen('from-tuple', from_bits(lens, 'tuple')),
            Scen('from-bytes', from_bytes(tuple(range(0, 10 if q else 18)))),
            Scen('copy', copies(ws)), Scen('setters', setters(ws, -(1 << 40), 1 << 70)),
            Scen('render', render(ws)), Scen('empty', empty)]

def empty(S):
    B = bsmod(S).bitstring
    for src in (None, '', [], (), bytearray()):
        r = B(src) if src is not None else B()
        is_bs(S, r, 0, 0, 'empty')
        S.eq(r.binary_string, '', 'empty text')
        S.eq(len(r.bytes), 0, 'no bytes')
    k = S.choice('bad', (None, 1.5, object()))
    if k is not None:
        r, e = S.attempt(B, k)
        S.check(type(e) is TypeError, 'an unsupported source is rejected')
