from sx.scen import Scen
from checks.common import *
from checks import isa
from ref import thumb as R

BOUNDS = {'quick': 'every 16-bit and 32-bit word at every address, followed by nothing or by four arbitrary bytes; data of '
                   'zero to three arbitrary bytes; history: every encoding with arbitrary fields (32-bit lists of up to '
                   'two registers), decoded elsewhere and after decoding, printing and executing two fixed '
                   'instructions of the same or of another encoding, on a fresh copy of the package',
          'thorough': 'as quick, with histories of six fixed instructions of the same and of five other encodings'}
OUTSIDE = 'longer histories; other kinds of data than byte arrays'

FORKS = ('lsls-reg', 'lsrs-reg', 'asrs-reg', 'rors-reg')

def total(wide, first=None):
    def fn(S):
        if wide:
            word = S.bv('word', 32)
            S.assume(((word >> 11) & 31) >= 29)
            S.assume(((word >> 9) & 15) == first)
        else:
            word = S.bv('word', 16)
            S.assume((word >> 11) < 29)
        addr = S.bv('address', 32)
        data = isa.data_of(word, wide)
        i, err = isa.decode(S, data, addr)
        k = isa.kind(S, err)
        S.check(k in ('decodes', 'undefined', 'unpredictable'), 'decodes, undefined or unpredictable, not ' + k)
        other = S.bv('elsewhere', 32)
        j, err2 = isa.decode(S, data + S.bytes('after', 4), other)
        S.check(isa.kind(S, err2) == k, 'same outcome elsewhere and whatever follows')
        if k != 'decodes': return
        for x, at in ((i, addr), (j, other)):
            S.eq(x.size, 4 if wide else 2, 'size')
            S.eq(x.address, at, 'address')
            b = x.bytes
            S.eq(len(b), len(data), 'number of bytes')
            S.check(S.and_(*[p == q for p, q in zip(b, data)]), 'encoded bytes')
        S.check(S.and_(j.mnemonic == i.mnemonic, type(j) is type(i)), 'same instruction elsewhere and whatever follows')
        S.eq(S.mod('cmdis.disasm').decoder.decode(data).address, 0, 'address when none is given')
    return fn

def short(S):
    n = S.choice('length', range(4))
    data = S.bytes('data', n)
    if n >= 2: S.assume((data[1] >> 3) >= 29)
    i, err = isa.decode(S, data, S.bv('address', 32))
    S.check(isa.kind(S, err) == 'undefined', 'data too short for its instruction is undefined')

def odd(S):
    """Three bytes starting with a 16-bit instruction."""
    data = S.bytes('data', 2)
    S.assume((data[1] >> 3) < 29)
    addr = S.bv('address', 32)
    i, err = isa.decode(S, data, addr)
    j, err2 = isa.decode(S, data + S.bytes('after', 1), addr)
    k = isa.kind(S, err)
    S.check(isa.kind(S, err2) == k, 'same outcome with one byte more')
    if k == 'decodes': S.check(S.and_(i.size == 2, j.size == 2), 'size')

def islist(e): return e.group == 'block' and not e.name.endswith('-one')

class Plain(object):
    """Just enough of a scenario for concrete fields."""
    def and_(self, *c): return all(c)
    def or_(self, *c): return any(c)
    def not_(self, c): return not c
    def ite(self, c, a, b): return a if c else b
    def branch(self, c): return bool(c)
    def concrete(self, x): return int(x)

def words(e, n):
    """n words of e that decode, spread over its field values."""
    S, out = Plain(), []
    x = 12345
    for k in range(2000):
        w = e.match
        for name, lo, width in e.fields:
            x = (x * 1103515245 + 12345) & 0x7fffffff
            w |= ((x >> 8) & ((1 << width) - 1)) << lo
        f = e.take(w)
        if e.here(S, f) and not e.unpred(S, f) and not e.loose(S, f) and not e.skip(S, f) and w not in out:
            out.append(w)
            if len(out) == n: break
    return out

def history(e, others):
    def fn(S):
        S.reload()
        F = S.mod('cmdis.formatter').Formatter
        word, f = e.put(S)
        S.assume(e.here(S, f))
        S.assume(S.not_(S.or_(e.unpred(S, f), e.loose(S, f))))
        if islist(e): S.assume(R.count(e.a.regs(f)) <= 2)
        addr = S.bv('address', 31) << 1
        data = isa.data_of(word, e.wide)
        for o, w in S.choice('history', others):
            j, err = isa.decode(S, isa.data_of(w, o.wide), 0x2000)
            S.check(err is None, o.name + ' decodes')
            F(None).format(j)
            regs, mem = isa.state(S)
            j.execute(isa.cpu_on(S, isa.Stub(S, regs, mem)))
        other = S.bv('elsewhere', 31) << 1
        k, err = isa.decode(S, data, other)
        S.check(err is None, e.name + ' decodes')
        i, err = isa.decode(S, data, addr)
        S.check(err is None, e.name + ' decodes after other instructions')
        for x, at in ((k, other), (i, addr)):
            S.eq(x.address, at, 'address')
            S.eq(x.size, e.size, 'size')
            S.check(S.and_(*[p == q for p, q in zip(x.bytes, data)]), 'encoded bytes')
        S.eq(isa.body(F(None).format(i), e.wide), e.text(S, f, addr).line(), e.name + ': instruction after other instructions')
    return fn

def scenarios(tier):
    out = [Scen('halfword', total(False)), Scen('short', short), Scen('odd', odd)]
    for k in range(4, 16): out.append(Scen('word-%d' % k, total(True, k)))
    n = 2 if tier == 'quick' else 6
    for x, e in enumerate(R.E):
        others = [[(e, w) for w in words(e, n)]]
        for k in range(1, n):
            o = R.E[(x + 7 * k) % len(R.E)]
            if o.name not in FORKS: others.append([(o, w) for w in words(o, n)])
        if e.name in FORKS: others[0] = []
        out.append(Scen('after-' + e.name, history(e, others), fresh=True))
    return out
