from sx.scen import Scen
from checks.common import *

BOUNDS = {
    'quick': 'all 4096 modified immediates with both carries, all 128 shift fields; alignment of integers in '
             '[-2^40, 2^40] and of bit strings of 8, 16, 32, 33 and 64 bits to 1, 2, 4, ... 2^16',
    'thorough': 'the same, alignment of integers in [-2^70, 2^70] and bit strings of 1..66 bits to 1 .. 2^31',
}
OUTSIDE = 'immediates the architecture leaves unpredictable (a repeated zero byte) are checked to expand to zero'

def expand(S, imm):
    """ARM modified immediate; returns (value, rotated, carry)."""
    b = imm & 0xff
    top = imm >> 10
    mode = (imm >> 8) & 3
    rep = S.ite(mode == 0, b, S.ite(mode == 1, b | (b << 16), S.ite(mode == 2, (b << 8) | (b << 24),
                b | (b << 8) | (b << 16) | (b << 24))))
    rot = imm >> 7
    u = (imm & 0x7f) | 0x80
    r = 0
    for k in range(8, 32):
        r = S.ite(rot == k, ((u >> k) | (u << (32 - k))) & 0xffffffff, r)
    return S.ite(top == 0, rep, r), top != 0, r >> 31

def imm(S):
    H = S.mod('cmdis.helpers')
    x, v = mkbs(S, 'imm12', 12)
    c, cv = mkbs(S, 'c', 1)
    want, rotated, carry = expand(S, v)
    r, co = H.ThumbExpandImm_C(x, c)
    is_bs(S, r, 32, want, 'expanded immediate')
    is_bs(S, co, 1, S.ite(rotated, carry, cv), 'carry')
    is_bs(S, H.ThumbExpandImm(x), 32, want, 'expanded immediate, without carry')
    same_bs(S, x, 12, v, 'immediate'); same_bs(S, c, 1, cv, 'carry in')

def shifts(S):
    H = S.mod('cmdis.helpers')
    T = H.SRType
    t, tv = mkbs(S, 'type', 2)
    n, nv = mkbs(S, 'imm5', 5)
    kind, amount = H.DecodeImmShift(t, n)
    if S.branch(tv == 0): wk, wa = T.SRType_LSL, nv
    elif S.branch(tv == 1): wk, wa = T.SRType_LSR, S.ite(nv == 0, 32, nv)
    elif S.branch(tv == 2): wk, wa = T.SRType_ASR, S.ite(nv == 0, 32, nv)
    elif S.branch(nv == 0): wk, wa = T.SRType_RRX, 1
    else: wk, wa = T.SRType_ROR, nv
    S.check(kind is wk, 'shift kind')
    S.eq(amount, wa, 'shift amount')
    same_bs(S, t, 2, tv, 'type'); same_bs(S, n, 5, nv, 'amount field')

def align_int(lim, tops):
    def fn(S):
        H = S.mod('cmdis.helpers')
        a = S.choice('a', tops)
        n = S.int('n', -lim, lim)
        S.eq(H.Align(n, 1 << a), (n >> a) << a, 'aligned integer')
    return fn

def align_bs(ws, tops):
    def fn(S):
        H = S.mod('cmdis.helpers')
        w = S.choice('width', ws)
        a = S.choice('a', tops)
        S.assume(a <= w)
        x, v = mkbs(S, 'x', w)
        r = H.Align(x, 1 << a)
        is_bs(S, r, w, (v >> a) << a, 'aligned bit string')
        same_bs(S, x, w, v, 'operand')
        r.invert()
        same_bs(S, x, w, v, 'operand after changing the result')
    return fn

def scenarios(tier):
    q = tier == 'quick'
    tops = range(0, 17) if q else range(0, 32)
    return [Scen('modified-immediate', imm), Scen('shift-field', shifts),
            Scen('align-int', align_int(1 << (40 if q else 70), tops)),
            Scen('align-bitstring', align_bs((8, 16, 32, 33, 64) if q else range(1, 67), tops))]
