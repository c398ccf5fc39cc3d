from sx.scen import Scen
from checks.common import *

BOUNDS = {
    'quick': 'widths 0..10, 16, 32, 33, 64..66 (bit count: 65 only of the last three)',
    'thorough': 'all widths 0..66, 128 (bit count: without 64 and 66)',
}
OUTSIDE = 'widths not listed'

def count(ws):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        n = 0
        for k in range(w): n = n + ((av >> k) & 1)
        S.eq(a.bit_count(), n, 'bit count')
        same_bs(S, a, w, av, 'after counting')
    return fn

def positions(ws):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        lo, hi = w, -1
        for k in range(w): hi = S.ite(((av >> k) & 1) == 1, k, hi)
        for k in range(w - 1, -1, -1): lo = S.ite(((av >> k) & 1) == 1, k, lo)
        S.eq(a.lowest_set_bit(), lo, 'lowest set bit')
        S.eq(a.highest_set_bit(), hi, 'highest set bit')
        same_bs(S, a, w, av, 'after looking for set bits')
    return fn

def tests(ws):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        z, o = av == 0, av == (1 << w) - 1
        S.eq(a.is_zero(), z, 'all zeros')
        S.eq(a.is_ones(), o, 'all ones')
        is_bs(S, a.is_zero_bit(), 1, S.ite(z, 1, 0), 'all-zeros bit')
        is_bs(S, a.is_ones_bit(), 1, S.ite(o, 1, 0), 'all-ones bit')
        S.eq(bool(a), S.not_(z), 'truth value')
        S.eq(not a, z, 'negated truth value')
        S.check((1 if a else 0) == S.ite(z, 0, 1), 'truth value in a condition')
        same_bs(S, a, w, av, 'after testing')
    return fn

def order(ws):
    def fn(S):
        w = S.choice('width', ws)
        a, av = mkbs(S, 'a', w)
        got = [b for b in a]
        S.eq(len(got), w, 'number of bits iterated')
        for k in range(w):
            S.eq(got[k], (av >> k) & 1, 'iterated bit')
        want = 0
        for k in range(w): want = want | (((av >> k) & 1) << (w - 1 - k))
        r = a.reversed
        is_bs(S, r, w, want, 'reversed')
        same_bs(S, a, w, av, 'after reversing a copy')
        is_bs(S, r.reversed, w, av, 'reversed twice')
        r.invert()
        same_bs(S, a, w, av, 'after changing the reversed copy')
        x = a.reverse()
        S.check(x is a, 'reverse returns its receiver')
        is_bs(S, a, w, want, 'reversed in place')
        a.reverse()
        is_bs(S, a, w, av, 'reversed in place twice')
    return fn

def scenarios(tier):
    ws = tuple(range(0, 11)) + (16, 32, 33, 64, 65, 66) if tier == 'quick' else tuple(range(0, 67)) + (128,)
    cw = tuple(w for w in ws if w not in (64, 66))
    return [Scen('bit-count', count(cw)), Scen('positions', positions(ws)), Scen('tests', tests(ws)),
            Scen('iterate-reverse', order(ws)), Scen('helpers', zeros_ones)]

def zeros_ones(S):
    m = bsmod(S)
    n = S.choice('n', tuple(range(0, 67)))
    is_bs(S, m.zeros(n), n, 0, 'zeros')
    is_bs(S, m.ones(n), n, (1 << n) - 1, 'ones')
    is_bs(S, m.bit0, 1, 0, 'bit0')
    is_bs(S, m.bit1, 1, 1, 'bit1')
