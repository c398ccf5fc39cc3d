"""The term normaliser against z3: random expressions are built twice, once with
simplification and once literally, and z3 must prove them equal."""
import random, sys, z3
from . import terms as T

def build(rng, depth, w, env, raw):
    """Returns a term of width w, following the random choices of rng."""
    T.RAW[0] = raw
    def bv(d, w):
        c = rng.randrange(22)
        if d == 0 or c < 3:
            k = rng.randrange(5)
            if k == 0:
                return T.const(rng.choice([0, -1, 1, 1 << (w - 1), rng.getrandbits(w)]), w)
            v = env[rng.randrange(2)]
            if v.w == w: return v
            if v.w < w: return T.zext(v, w) if rng.randrange(2) else T.sext(v, w)
            lo = rng.randrange(v.w - w + 1)
            return T.ext(v, lo + w - 1, lo)
        if c == 3:
            return T.bnot(bv(d - 1, w))
        if c < 7:
            return (T.band, T.bor, T.bxor)[c - 4](bv(d - 1, w), bv(d - 1, w))
        if c == 7: return T.add(bv(d - 1, w), bv(d - 1, w))
        if c == 8: return T.sub(bv(d - 1, w), bv(d - 1, w))
        if c == 9:
            return T.mul(bv(d - 1, w), T.const(rng.choice([0, 1, 2, 4, 3, -1]), w))
        if c == 10 and w > 1:
            k = rng.randrange(1, w)
            return T.cat(bv(d - 1, k), bv(d - 1, w - k))
        if c in (11, 12):
            k = w + rng.randrange(0, 5)
            lo = rng.randrange(k - w + 1)
            return T.ext(bv(d - 1, k), lo + w - 1, lo)
        if c == 13:
            b = bo(d - 1)
            return T.ite(b, bv(d - 1, w), bv(d - 1, w))
        if c == 14: return T.neg(bv(d - 1, w))
        if c == 15:
            f = (T.shl, T.lshr, T.ashr)[rng.randrange(3)]
            return f(bv(d - 1, w), T.const(rng.randrange(w + 2), w) if w > 3 else bv(d - 1, w))
        if c == 16 and w > 3:
            f = (T.udiv, T.urem)[rng.randrange(2)]
            return f(bv(d - 1, w), T.const(rng.choice([1, 2, 4, 3]), w))
        if c == 17 and w == 8:
            a = env[2]
            for _ in range(rng.randrange(4)):
                a = T.store(a, bv(d - 2 if d > 1 else 0, 4), bv(0, 8))
            return T.select(a, bv(0, 4))
        if c == 18:
            k = rng.randrange(1, w + 1)
            x = bv(d - 1, k)
            return T.zext(x, w) if rng.randrange(2) else T.sext(x, w)
        return T.bxor(bv(d - 1, w), bv(d - 1, w)) if c == 19 else T.add(bv(d - 1, w), T.const(rng.randrange(4), w))
    def bo(d):
        c = rng.randrange(9)
        w = rng.choice([1, 2, 4, 8])
        if d <= 0 or c < 2:
            return T.eq(bv(max(d, 0), w), bv(max(d, 0), w))
        if c == 2: return T.ult(bv(d - 1, w), bv(d - 1, w))
        if c == 3: return T.slt(bv(d - 1, w), bv(d - 1, w))
        if c == 4: return T.bnot_(bo(d - 1))
        if c == 5: return T.band_(bo(d - 1), bo(d - 1))
        if c == 6: return T.bor_(bo(d - 1), bo(d - 1))
        if c == 7: return T.iff(bo(d - 1), bo(d - 1))
        return T.eq(bv(d - 1, w), T.const(rng.getrandbits(w), w))
    try:
        return bv(depth, w) if w else bo(depth)
    finally:
        T.RAW[0] = False

def run(n, seed):
    T.reset()
    bad = 0
    for i in range(n):
        if i % 200 == 0:
            T.reset()
        env = [T.var('x', 8), T.var('y', 5), T.avar('A', 4, 8)]
        s = random.Random(seed * 1000003 + i)
        w = s.choice([0, 1, 3, 8, 8, 12])
        st = s.getstate()
        a = build(s, 4, w, env, False)
        s.setstate(st)
        b = build(s, 4, w, env, True)
        sol = z3.Solver()
        sol.set('timeout', 20000)
        sol.add(T.to_z3(a) != T.to_z3(b))
        r = sol.check()
        if r != z3.unsat:
            print('MISMATCH', i, r, a, b)
            bad += 1
        for _ in range(3):
            m = T.Model({'x': s.getrandbits(8), 'y': s.getrandbits(5)}, {'A': (s.getrandbits(8), {1: 7, 3: 9})})
            if T.ev(a, m) != T.ev(b, m):
                print('EVAL MISMATCH', i, a, b)
                bad += 1
    return bad

if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 2000
    s = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    b = run(n, s)
    print('%d expressions, %d mismatches' % (n, b))
    sys.exit(1 if b else 0)
