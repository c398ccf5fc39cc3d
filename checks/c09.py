from sx.scen import Scen
from checks.common import *

BOUNDS = {
    'quick': 'width 32 with every amount 0..255 (from the least amount each primitive is defined for); widths '
             '1..9 (arithmetic right: from 2), 16, 33 with amounts to 2*width+2',
    'thorough': 'width 32 with every amount 0..255; all widths 1..40, 64 with amounts to 3*width+2',
}
OUTSIDE = ('widths and amounts not listed; negative amounts; arithmetic shifts of one-bit values (the signed value of a '
           'one-bit string is 0 by definition in this code)')

def arch(S, kind, v, w, n, c):
    """Result and carry of shifting the w-bit v by n > 0."""
    m = (1 << w) - 1
    if kind == 'lsl':
        return (v << n) & m, (v >> (w - n)) & 1 if n <= w else 0
    if kind == 'lsr':
        return v >> n, (v >> (n - 1)) & 1
    if kind == 'asr':
        # n copies of the sign above the value
        s = v | (S.ite((v >> (w - 1)) == 1, (1 << n) - 1, 0) << w)
        return s >> n, (s >> (n - 1)) & 1
    if kind == 'ror':
        k = n % w
        r = ((v >> k) | (v << (w - k))) & m
        return r, (r >> (w - 1)) & 1
    if kind == 'rrx':
        return (c << (w - 1)) | (v >> 1), v & 1

def prim(kind, ws, top):
    def fn(S):
        H = S.mod('cmdis.helpers')
        w = S.choice('width', [x for x in ws if kind != 'asr' or x > 1])
        x, v = mkbs(S, 'x', w)
        if kind == 'rrx':
            c, cv = mkbs(S, 'c', 1)
            r, co = H.RRX_C(x, c)
            wr, wc = arch(S, kind, v, w, 1, cv)
            is_bs(S, r, w, wr, 'RRX result'); is_bs(S, co, 1, wc, 'RRX carry')
            is_bs(S, H.RRX(x, c), w, wr, 'RRX without carry')
            same_bs(S, x, w, v, 'operand'); same_bs(S, c, 1, cv, 'carry in')
            return
        n = S.choice('n', range(0, top(w) + 1))
        up = kind.upper()
        plain = getattr(H, up)
        if n == 0:
            is_bs(S, plain(x, 0), w, v, up + ' by 0')
        else:
            wr, wc = arch(S, kind, v, w, n, 0)
            r, co = getattr(H, up + '_C')(x, n)
            is_bs(S, r, w, wr, up + ' result'); is_bs(S, co, 1, wc, up + ' carry')
            is_bs(S, plain(x, n), w, wr, up + ' without carry')
        same_bs(S, x, w, v, 'operand')
    return fn

def general(kind, ws, top):
    def fn(S):
        H = S.mod('cmdis.helpers')
        w = S.choice('width', [x for x in ws if kind != 'asr' or x > 1])
        x, v = mkbs(S, 'x', w)
        c, cv = mkbs(S, 'c', 1)
        T = H.SRType
        t = {'none': T.SRType_None, 'lsl': T.SRType_LSL, 'lsr': T.SRType_LSR, 'asr': T.SRType_ASR,
             'ror': T.SRType_ROR, 'rrx': T.SRType_RRX}[kind]
        n = 1 if kind == 'rrx' else S.choice('n', range(0, top(w) + 1))
        if n == 0 or kind == 'none':
            wr, wc = v, cv
        else:
            wr, wc = arch(S, kind, v, w, n, cv)
        r, co = H.Shift_C(x, t, n, c)
        is_bs(S, r, w, wr, 'shift result'); is_bs(S, co, 1, wc, 'shift carry')
        is_bs(S, H.Shift(x, t, n, c), w, wr, 'shift without carry')
        same_bs(S, x, w, v, 'operand'); same_bs(S, c, 1, cv, 'carry in')
    return fn

def scenarios(tier):
    q = tier == 'quick'
    ws = (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33) if q else tuple(w for w in range(1, 41) if w != 32) + (64,)
    top = (lambda w: 2 * w + 2) if q else (lambda w: 3 * w + 2)
    out = []
    for kind in ('lsl', 'lsr', 'asr', 'ror', 'rrx'):
        out.append(Scen('%s-32' % kind, prim(kind, (32,), lambda w: 255)))
        out.append(Scen('%s-other' % kind, prim(kind, ws, top)))
    for kind in ('none', 'lsl', 'lsr', 'asr', 'ror', 'rrx'):
        out.append(Scen('shift-%s-32' % kind, general(kind, (32,), lambda w: 255)))
        out.append(Scen('shift-%s-other' % kind, general(kind, (4, 8, 33) if q else (1, 2, 3, 5, 8, 16, 31, 33, 64), top)))
    return out
