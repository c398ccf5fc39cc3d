from sx.scen import Scen
from checks.common import *

BOUNDS = {
    'quick': 'widths 1..9, 12, 16, 31..33, 64, 65; target widths up to width+9, and 32, 64',
    'thorough': 'all widths 1..66, 96, 128; target widths 0..width+33, and 64, 128',
}
OUTSIDE = 'widths not listed; the signed view of bit strings of fewer than two bits'

def views(ws):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        for k in (0, 1):
            if w > 1:
                S.eq(a.signed, sgn(S, av, w), 'signed view')
            S.eq(a.unsigned, av, 'unsigned view')
            S.eq(a.value, av, 'value')
            S.eq(int(a), av, 'int()')
            S.eq(len(a), w, 'len()')
            S.eq(a.mask, (1 << w) - 1, 'mask')
            a.inverted; a.reversed; a.binary_string; a.bytes
            same_bs(S, a, w, av, 'after reading the views')
    return fn

def extend(kind, ws, targets):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        t = S.choice('target', targets(w))
        f = a.sign_extend if kind == 'sign' else a.zero_extend
        if t < w:
            r, e = S.attempt(f, t)
            S.check(type(e) is ValueError, 'a narrower width is rejected with ValueError')
            same_bs(S, a, w, av, 'after the rejected extension')
            return
        r = f(t)
        want = av if kind == 'zero' else sgn(S, av, w) & ((1 << t) - 1)
        is_bs(S, r, t, want, kind + ' extension')
        if w > 1 and kind == 'sign':
            S.eq(r.signed, sgn(S, av, w), 'signed value kept')
        same_bs(S, a, w, av, 'extended bit string')
        S.check(r is not a, 'the extension is a separate bit string')
        how = S.choice('change', ('invert', 'setbit', 'width', 'value'))
        if how == 'invert': r.invert()
        elif how == 'setbit': r[0] = 1 - (av & 1)
        elif how == 'width': r.width = t + 1
        else: r.value = 0
        same_bs(S, a, w, av, 'extended bit string after changing the extension')
        r = f(t)
        a.invert()
        is_bs(S, r, t, want, kind + ' extension after changing the original')
        # and again, from the changed original
        bv = av ^ ((1 << w) - 1)
        r = a.sign_extend(t) if kind == 'sign' else a.zero_extend(t)
        is_bs(S, r, t, bv if kind == 'zero' else sgn(S, bv, w) & ((1 << t) - 1), kind + ' extension afterwards')
    return fn

def scenarios(tier):
    if tier == 'quick':
        ws = tuple(range(1, 10)) + (12, 16, 31, 32, 33, 64, 65)
        targets = lambda w: sorted(set([0, w - 1] + list(range(w, w + 10)) + [32, 64]))
    else:
        ws = tuple(range(1, 67)) + (96, 128)
        targets = lambda w: sorted(set(list(range(0, w + 34)) + [64, 128]))
    return [Scen('views', views(ws)), Scen('sign-extend', extend('sign', ws, targets)),
            Scen('zero-extend', extend('zero', ws, targets))]
