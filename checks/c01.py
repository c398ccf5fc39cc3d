from sx.scen import Scen
from checks.common import *

BOUNDS = {
    'quick': 'widths 1,2,3,5,8,31,32,33,64,65 for the left and 1,2,5,8,32,33,64,65 for the right operand; integers in '
             '[-2^40, 2^40] (multiplication, division: [-2^12, 2^12] against 8-bit strings as well)',
    'thorough': 'all width pairs 1..40 and 64, 65, 128; integers in [-2^70, 2^70]',
}
OUTSIDE = 'widths above those listed; text operands on the left'

OPS = ('add', 'sub', 'mul', 'floordiv')

def apply(op, form, a, b):
    if form == 'plain':
        if op == 'add': return a + b
        if op == 'sub': return a - b
        if op == 'mul': return a * b
        return a // b
    if op == 'add': a += b
    elif op == 'sub': a -= b
    elif op == 'mul': a *= b
    else: a //= b
    return a

def exact(op, x, y):
    if op == 'add': return x + y
    if op == 'sub': return x - y
    if op == 'mul': return x * y
    return x // y

def run(S, op, form, a, av, w, b, bv, btouched):
    """a (value av, width w) op b (integer value bv)."""
    if op == 'floordiv' and S.branch(bv == 0):
        r, e = S.attempt(apply, op, form, a, b)
        S.check(type(e) is ZeroDivisionError, 'dividing by zero raises ZeroDivisionError')
        same_bs(S, a, w, av, 'left operand after a division by zero')
        return
    r = apply(op, form, a, b)
    want = exact(op, av, bv) & ((1 << w) - 1)
    is_bs(S, r, w, want, op)
    if form == 'plain':
        S.check(r is not a, 'the result is a new bit string')
        same_bs(S, a, w, av, 'left operand')
        r.invert()
        same_bs(S, a, w, av, 'left operand, after changing the result')
    else:
        is_bs(S, a, w, want, 'left operand of the in-place form')
        S.eq(a.mask, (1 << w) - 1, 'mask')
    btouched()

def bs_bs(op, form, pairs):
    def fn(S):
        w, w2 = S.choice('widths', pairs)
        a, av = mkbs(S, 'a', w)
        b, bv = mkbs(S, 'b', w2)
        run(S, op, form, a, av, w, b, bv, lambda: same_bs(S, b, w2, bv, 'right operand'))
    return fn

def bs_self(op, form, ws):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        run(S, op, form, a, av, w, a, av, lambda: None)
    return fn

def bs_int(op, form, ws, lo, hi):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        n = S.int('n', lo, hi)
        run(S, op, form, a, av, w, n, n, lambda: None)
    return fn

def bs_text(op, form, pairs):
    def fn(S):
        w, w2 = S.choice('widths', pairs)
        a, av = mkbs(S, 'a', w)
        bv = S.bv('b', w2)
        run(S, op, form, a, av, w, bintext(bv, w2), bv, lambda: None)
    return fn

def int_bs(op, form, ws):
    def fn(S):
        w2 = S.choice('width', ws)
        b, bv = mkbs(S, 'b', w2)
        w = S.choice('size', (32, 64))
        n = S.bv('n', w)
        if w == 64: S.assume(n >= (1 << 32))
        if op == 'floordiv' and S.branch(bv == 0):
            r, e = S.attempt(apply, op, form, n, b)
            S.check(type(e) is ZeroDivisionError, 'dividing by zero raises ZeroDivisionError')
        else:
            r = apply(op, form, n, b)
            is_bs(S, r, w, exact(op, n, bv) & ((1 << w) - 1), 'integer ' + op)
        same_bs(S, b, w2, bv, 'right operand')
    return fn

def scenarios(tier):
    out = []
    if tier == 'quick':
        lw, rw = (1, 2, 3, 5, 8, 31, 32, 33, 64, 65), (1, 2, 5, 8, 32, 33, 64, 65)
        ints = 1 << 40
    else:
        lw = rw = tuple(range(1, 41)) + (64, 65, 128)
        ints = 1 << 70
    pairs = [(a, b) for a in lw for b in rw]
    tpairs = pairs if tier != 'quick' else [(a, b) for a in (1, 5, 32, 64) for b in (1, 3, 32)]
    for op in OPS:
        for form in ('plain', 'inplace'):
            p = pairs
            out.append(Scen('%s-%s-bitstring' % (op, form), bs_bs(op, form, p)))
            out.append(Scen('%s-%s-itself' % (op, form), bs_self(op, form, lw)))
            lim = ints if op in ('add', 'sub') else (1 << 12)
            out.append(Scen('%s-%s-int' % (op, form), bs_int(op, form, lw, -lim, lim)))
            if op in ('mul', 'floordiv'):
                out.append(Scen('%s-%s-bigint' % (op, form), bs_int(op, form, (8, 32) if tier == 'quick' else lw, -ints, ints)))
            out.append(Scen('%s-%s-text' % (op, form), bs_text(op, form, tpairs)))
            out.append(Scen('int-%s-%s' % (op, form), int_bs(op, form, rw)))
    return out
