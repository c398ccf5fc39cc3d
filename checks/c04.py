from sx.scen import Scen
from checks.common import *

BOUNDS = {
    'quick': 'single bits: widths 1..9, 16, 32, 33, 64, 65, 70, every index; slices: widths 1..5 with every start, stop (also '
             'negative, beyond the ends, omitted) and steps -3..3, widths 32, 40 and 70 with selected ones; assignment of '
             'bit strings, integers and texts of 1..6 bits; concatenation: widths 0..9, 32, 33, 64, 65',
    'thorough': 'single bits: widths 1..66, 70, 128; slices: widths 1..8 complete, 16, 32, 33, 40, 64, 70 with selected ones; '
                'concatenation: all pairs of 0..34, 64, 65',
}
OUTSIDE = 'widths not listed, indices outside the bit string, assignment to slices whose stop is below their start or ' \
          'whose step is not 1'

def bits(ws):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        i = S.int('i', -w, w - 1)
        p = S.ite(i < 0, i + w, i)
        want = (av >> p) & 1
        how = S.choice('how', ('index', 'get_bit', 'get_bit_value'))
        if how == 'get_bit_value':
            S.assume(i >= 0)
            S.eq(a.get_bit_value(i), want, 'bit')
        else:
            r = a[i] if how == 'index' else a.get_bit(i)
            is_bs(S, r, 1, want, 'bit')
            r.invert()
        same_bs(S, a, w, av, 'after reading a bit')
    return fn

def setbits(ws):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        i = S.int('i', -w, w - 1)
        p = S.ite(i < 0, i + w, i)
        bit = S.bv('bit', 1)
        if S.choice('kind', ('int', 'bitstring')) == 'int':
            a[i] = bit
        else:
            b = bsmod(S).bitstring(bit, 1)
            a[i] = b
            same_bs(S, b, 1, bit, 'assigned value')
        want = (av & ~(1 << p)) | (bit << p)
        is_bs(S, a, w, want, 'after assigning a bit')
    return fn

def _slices(w, small):
    e = [None] + list(range(-w - 2, w + 3)) if small else \
        [None] + sorted(set([-w - 1, -w, -5, -1, 0, 1, 3, 7, 8, w // 2, w - 1, w, w + 2]))
    return e

def getslice(ws, big):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        e = _slices(w, not big)
        start = S.choice('start', e)
        stop = S.choice('stop', e)
        step = S.choice('step', (None, 1, -1, 2, -2, 3, -3))
        pos = list(range(w))[start:stop:step]
        want = 0
        for k, p in enumerate(pos):
            want = want | (((av >> p) & 1) << k)
        r = a[start:stop:step]
        is_bs(S, r, len(pos), want, 'slice')
        same_bs(S, a, w, av, 'after reading a slice')
        r.invert()
        same_bs(S, a, w, av, 'after changing the slice read')
    return fn

def setslice(ws, big, vws):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        e = _slices(w, not big)
        start = S.choice('start', e)
        stop = S.choice('stop', e)
        lo, hi, _ = slice(start, stop).indices(w)
        S.assume(lo <= hi)
        n = hi - lo
        kind = S.choice('kind', ('bitstring', 'int', 'text'))
        if kind == 'int':
            v = S.int('v', 0, (1 << (n + 2)) - 1)
            a[start:stop] = v
        else:
            vw = S.choice('vw', sorted(set(vws) | set([n])) if n else vws)
            v = S.bv('v', vw)
            if kind == 'text':
                a[start:stop] = bintext(v, vw)
            else:
                b = bsmod(S).bitstring(v, vw)
                a[start:stop] = b
                same_bs(S, b, vw, v, 'assigned value')
        m = ((1 << n) - 1) << lo
        is_bs(S, a, w, (av & ~m) | ((v << lo) & m), 'after assigning a slice')
        S.eq(a.mask, (1 << w) - 1, 'mask')
    return fn

def concat(ws, form, kind):
    def fn(S):
        B = bsmod(S).bitstring
        w = S.choice('w', ws)
        a, av = mkbs(S, 'a', w)
        if kind == 'int':
            w2 = 1; bv = S.bv('b', 1); b = bv
        else:
            w2 = S.choice('w2', ws)
            if kind == 'list':
                S.assume(w2 <= 9)
            bv = S.bv('b', w2) if w2 else 0
            if kind == 'bitstring': b = B(bv, w2)
            elif kind == 'text': b = bintext(bv, w2)
            else: b = [(bv >> (w2 - 1 - k)) & 1 for k in range(w2)]
        want = (av << w2) | bv
        if form == 'plain':
            r = a % b
            S.check(r is not a, 'the result is a new bit string')
        else:
            r = a
            r %= b
            S.check(r is a, 'in place')
        is_bs(S, r, w + w2, want, 'concatenation')
        S.eq(r.mask, (1 << (w + w2)) - 1, 'mask')
        is_bs(S, r[0:w2], w2, bv, 'lower part')
        is_bs(S, r[w2:w + w2], w, av, 'upper part')
        if form == 'plain':
            same_bs(S, a, w, av, 'left operand')
        if kind == 'bitstring':
            same_bs(S, b, w2, bv, 'right operand')
            r.invert()
            same_bs(S, b, w2, bv, 'right operand after changing the result')
            if form == 'plain': same_bs(S, a, w, av, 'left operand after changing the result')
    return fn

def leftcat(ws):
    """A list of bits or an integer on the left."""
    def fn(S):
        w = S.choice('w', ws)
        a, av = mkbs(S, 'a', w)
        if S.choice('left', ('list', 'integer')) == 'list':
            n = S.choice('n', tuple(range(10)))
            bv = S.bv('b', n) if n else 0
            b = [(bv >> (n - 1 - k)) & 1 for k in range(n)]
        else:
            n = S.choice('n', (32, 64))
            b = bv = S.bv('b', n)
            if n == 64: S.assume(bv >= (1 << 32))
        r = b % a
        is_bs(S, r, n + w, (bv << w) | av, 'concatenation')
        is_bs(S, r[0:w], w, av, 'lower part')
        is_bs(S, r[w:w + n], n, bv, 'upper part')
        r.invert()
        same_bs(S, a, w, av, 'right operand after changing the result')
    return fn

def selfcat(ws):
    def fn(S):
        w = S.choice('w', ws)
        a, av = mkbs(S, 'a', w)
        r = a % a
        is_bs(S, r, 2 * w, (av << w) | av, 'concatenation with itself')
        same_bs(S, a, w, av, 'operand')
        # three in a row
        b, bv = mkbs(S, 'b', 3)
        is_bs(S, a % b % a, 2 * w + 3, (av << (w + 3)) | (bv << w) | av, 'three parts')
    return fn

def scenarios(tier):
    q = tier == 'quick'
    bw = tuple(range(1, 10)) + (16, 32, 33, 64, 65, 70) if q else tuple(range(1, 67)) + (70, 128)
    sw = tuple(range(1, 6)) if q else tuple(range(1, 9))
    big = (32, 40, 70) if q else (16, 32, 33, 40, 64, 70)
    cw = tuple(range(0, 10)) + (32, 33, 64, 65) if q else tuple(range(0, 35)) + (64, 65)
    out = [Scen('bit', bits(bw)), Scen('set-bit', setbits(bw))]
    for w in sw:
        out.append(Scen('slice-%d' % w, getslice((w,), False)))
        out.append(Scen('set-slice-%d' % w, setslice((w,), False, (1, 2, 3, 6))))
    for w in big:
        out.append(Scen('slice-%d' % w, getslice((w,), True)))
        out.append(Scen('set-slice-%d' % w, setslice((w,), True, (1, 5, 40))))
    for kind in ('bitstring', 'text', 'int', 'list'):
        for form in ('plain', 'inplace'):
            out.append(Scen('concat-%s-%s' % (kind, form), concat(cw, form, kind)))
    out.append(Scen('concat-itself', selfcat(tuple(w for w in cw if w))))
    out.append(Scen('concat-left', leftcat(cw)))
    return out
