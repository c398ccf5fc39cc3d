from sx.scen import Scen
from checks.common import *

BOUNDS = {'quick': 'widths 2..9, 12, 16, 31, 32, 33, 64', 'thorough': 'widths 2..66, 96, 128'}
OUTSIDE = 'widths not listed; operands of different widths'

def awc(ws):
    def fn(S):
        H = S.mod('cmdis.helpers')
        w = S.choice('width', ws)
        x, xv = mkbs(S, 'x', w)
        y, yv = mkbs(S, 'y', w)
        c, cv = mkbs(S, 'c', 1)
        for k in (0, 1):
            r, carry, over = H.AddWithCarry(x, y, c)
            u = xv + yv + cv
            is_bs(S, r, w, u & ((1 << w) - 1), 'sum')
            is_bs(S, carry, 1, u >> w, 'carry out')
            # overflow: both operands have the sign the result has not
            s = (u >> (w - 1)) & 1
            o = ((xv >> (w - 1)) ^ s) & ((yv >> (w - 1)) ^ s)
            is_bs(S, over, 1, o, 'overflow')
            same_bs(S, x, w, xv, 'first operand')
            same_bs(S, y, w, yv, 'second operand')
            same_bs(S, c, 1, cv, 'carry in')
    return fn

def alias(ws):
    def fn(S):
        H = S.mod('cmdis.helpers')
        w = S.choice('width', ws)
        x, xv = mkbs(S, 'x', w)
        c, cv = mkbs(S, 'c', 1)
        r, carry, over = H.AddWithCarry(x, x, c)
        u = xv + xv + cv
        is_bs(S, r, w, u & ((1 << w) - 1), 'sum')
        is_bs(S, carry, 1, u >> w, 'carry out')
        is_bs(S, over, 1, (xv >> (w - 1)) ^ ((u >> (w - 1)) & 1), 'overflow')
        same_bs(S, x, w, xv, 'operand')
        # subtraction, the way the instructions use it
        y, yv = mkbs(S, 'y', w)
        r, carry, over = H.AddWithCarry(x, ~y, S.mod('cmdis.bitstring').bit1)
        is_bs(S, r, w, (xv - yv) & ((1 << w) - 1), 'difference')
        is_bs(S, carry, 1, S.ite(xv >= yv, 1, 0), 'no borrow')
        d = sgn(S, xv, w) - sgn(S, yv, w)
        fits = S.and_(d >= -(1 << (w - 1)), d < (1 << (w - 1)))
        is_bs(S, over, 1, S.ite(fits, 0, 1), 'overflow of the difference')
        same_bs(S, y, w, yv, 'subtrahend')
        is_bs(S, S.mod('cmdis.bitstring').bit1, 1, 1, 'bit1')
    return fn

def scenarios(tier):
    ws = tuple(range(2, 10)) + (12, 16, 31, 32, 33, 64) if tier == 'quick' else tuple(range(2, 67)) + (96, 128)
    return [Scen('add-with-carry', awc(ws)), Scen('same-operand-and-difference', alias(ws))]
