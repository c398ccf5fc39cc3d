from sx.scen import Scen
from checks.common import *

BOUNDS = {
    'quick': 'widths 1..9, 12, 16, 31..33, 64, 65 (pairs: the whole square); integers in [-2^40, 2^40]; every shift '
             'amount 0..width+3, and sixteen larger ones up to 65536',
    'thorough': 'all widths 1..66, 96, 128 (pairs: the whole square); integers in [-2^70, 2^70]; every shift amount '
                '0..2*width+2, and sixteen larger ones up to 65536',
}
OUTSIDE = 'widths not listed; negative shift amounts; integers on the left that do not fit the bit string'

OPS = {'and': (lambda a, b: a & b), 'or': (lambda a, b: a | b), 'xor': (lambda a, b: a ^ b)}

def inplace(op, a, b):
    if op == 'and': a &= b
    elif op == 'or': a |= b
    elif op == 'xor': a ^= b
    elif op == 'shl': a <<= b
    elif op == 'shr': a >>= b
    return a

def judge(S, r, form, a, av, w, want, rw, what):
    """rw: required result width or None"""
    S.check(type(r) is bsmod(S).bitstring, what + ' gives a bit string')
    S.eq(r.value, want, what)
    if rw is not None:
        S.eq(r.width, rw, what + ': width')
    if form == 'plain':
        S.check(r is not a, 'the result is a new bit string')
        same_bs(S, a, w, av, 'left operand')
        r.invert()
        same_bs(S, a, w, av, 'left operand, after changing the result')
    else:
        S.eq(a.value, want, what + ' in place')

def bs_bs(op, form, pairs):
    def fn(S):
        w, w2 = S.choice('widths', pairs)
        a, av = mkbs(S, 'a', w)
        b, bv = mkbs(S, 'b', w2)
        r = OPS[op](a, b) if form == 'plain' else inplace(op, a, b)
        judge(S, r, form, a, av, w, OPS[op](av, bv), w if w == w2 else None, op)
        same_bs(S, b, w2, bv, 'right operand')
    return fn

def bs_self(op, form, ws):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        r = OPS[op](a, a) if form == 'plain' else inplace(op, a, a)
        judge(S, r, form, a, av, w, OPS[op](av, av), w, op + ' with itself')
    return fn

def bs_int(op, form, ws, lim):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        n = S.int('n', -lim, lim)
        r = OPS[op](a, n) if form == 'plain' else inplace(op, a, n)
        judge(S, r, form, a, av, w, OPS[op](av, n) & ((1 << w) - 1), w, op + ' with an integer')
    return fn

def bs_text(op, form, pairs):
    def fn(S):
        w, w2 = S.choice('widths', pairs)
        a, av = mkbs(S, 'a', w)
        bv = S.bv('b', w2)
        t = bintext(bv, w2)
        r = OPS[op](a, t) if form == 'plain' else inplace(op, a, t)
        judge(S, r, form, a, av, w, OPS[op](av, bv) & ((1 << w) - 1), w, op + ' with text')
    return fn

def int_bs(op, ws):
    def fn(S):
        w = S.choice('width', ws)
        b, bv = mkbs(S, 'b', w)
        n = S.bv('n', min(w, 64))
        r = OPS[op](n, b)
        S.check(type(r) is bsmod(S).bitstring, op + ' gives a bit string')
        S.eq(r.value, OPS[op](n, bv), 'integer ' + op)
        r.invert()
        same_bs(S, b, w, bv, 'right operand')
    return fn

def text_bs(op, ws):
    def fn(S):
        w = S.choice('width', ws)
        b, bv = mkbs(S, 'b', w)
        n = S.bv('n', w)
        r = OPS[op](bintext(n, w), b)
        S.check(type(r) is bsmod(S).bitstring, op + ' gives a bit string')
        S.eq(r.value, OPS[op](n, bv), 'text ' + op)
        same_bs(S, b, w, bv, 'right operand')
    return fn

FAR = (63, 64, 96, 127, 128, 129, 255, 256, 257, 288, 511, 512, 1000, 1024, 4096, 65536)

def shift(kind, form, ws, top):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        n = S.choice('n', FAR) if top is None else S.int('n', 0, top(w))
        if kind == 'shl':
            r = a << n if form == 'plain' else inplace(kind, a, n)
            want = (av << n) & ((1 << w) - 1)
        else:
            r = a >> n if form == 'plain' else inplace(kind, a, n)
            want = av >> n
        judge(S, r, form, a, av, w, want, w, 'shift ' + kind)
    return fn

def inv(ws):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        want = av ^ ((1 << w) - 1)
        how = S.choice('how', ('operator', 'property', 'method'))
        if how == 'method':
            r = a.invert()
            S.check(r is a, 'invert returns its receiver')
            is_bs(S, a, w, want, 'inverted in place')
        else:
            r = ~a if how == 'operator' else a.inverted
            judge(S, r, 'plain', a, av, w, want, w, 'inversion')
    return fn

def scenarios(tier):
    if tier == 'quick':
        ws = tuple(range(1, 10)) + (12, 16, 31, 32, 33, 64, 65)
        lim, top = 1 << 40, lambda w: w + 3
    else:
        ws = tuple(range(1, 67)) + (96, 128)
        lim, top = 1 << 70, lambda w: 2 * w + 2
    pairs = [(a, b) for a in ws for b in ws]
    out = []
    for op in ('and', 'or', 'xor'):
        for form in ('plain', 'inplace'):
            out.append(Scen('%s-%s-bitstring' % (op, form), bs_bs(op, form, pairs)))
            out.append(Scen('%s-%s-itself' % (op, form), bs_self(op, form, ws)))
            out.append(Scen('%s-%s-int' % (op, form), bs_int(op, form, ws, lim)))
            out.append(Scen('%s-%s-text' % (op, form), bs_text(op, form, pairs)))
        out.append(Scen('int-%s' % op, int_bs(op, ws)))
        out.append(Scen('text-%s' % op, text_bs(op, ws)))
    for kind in ('shl', 'shr'):
        for form in ('plain', 'inplace'):
            out.append(Scen('%s-%s' % (kind, form), shift(kind, form, ws, top)))
            out.append(Scen('%s-%s-far' % (kind, form), shift(kind, form, (1, 8, 16, 32, 33, 64) if tier == 'quick' else ws, None)))
    out.append(Scen('invert', inv(ws)))
    return out
