from sx.scen import Scen
from checks.common import *
from checks import isa
from ref import thumb as R

BOUNDS = {'quick': 'buffers of up to two items, or three of five kinds, and a tail of zero to three bytes that do not decode, at every start address; an item '
                   'is one of: two 16-bit and two 32-bit encodings that decode, the undefined and the unpredictable words of either '
                   'size, with arbitrary fields; and buffers of one arbitrary halfword or 32-bit word followed by such an item; and 256, 4096 and 65536 bytes of one fixed '
                   'instruction followed by an arbitrary move',
          'thorough': 'as quick, with up to four items of all kinds and long buffers of six sizes up to 131072'}
OUTSIDE = 'other long buffers; buffers ending beyond the address space'

BY = dict([(e.name, e) for e in R.E])

def good(name):
    def item(S):
        e = BY[name]
        w, f = e.put(S)
        S.assume(e.here(S, f))
        S.assume(S.not_(S.or_(e.unpred(S, f), e.loose(S, f))))
        return isa.data_of(w, e.wide)
    return item

def undef16(S): return isa.data_of(0xba80 | S.bv('m', 6), False)
def undef32(S): return isa.data_of(0xfc00 | (S.bv('x', 9) << 16) | S.bv('y', 8), True)
def unpred16(S): return isa.data_of(0xb400, False)
def unpred32(S): return isa.data_of(0xfb00 | S.bv('n', 3) | ((0xf00d | (S.bv('d', 3) << 8)) << 16), True)

ITEMS = {'mov': good('movs-imm'), 'str': good('str-imm'), 'bl': good('bl'), 'mul': good('mul'),
         'undef16': undef16, 'undef32': undef32, 'unpred16': unpred16, 'unpred32': unpred32}

def walk(S, data, start):
    """(instructions, final outcome) of decoding position after position."""
    out = []
    o = 0
    while o < len(data):
        i, err = isa.decode(S, data[o:], start + o)
        k = isa.kind(S, err)
        if k == 'unpredictable':
            return out, ('unpredictable', 'end') if len(data) - o < 4 else ('unpredictable',)
        if k == 'undefined':
            return out, ('end',) if len(data) - o < 4 else ('undefined',)
        S.check(k == 'decodes', 'decodes, undefined or unpredictable, not ' + k)
        out.append(i)
        o += i.size
    return out, ('end',)

def cut(S): return isa.data_of(0xe800 | S.bv('first', 13), False)
def byte(S): return S.bytes('byte', 1)

TAILS = {'none': (), 'byte': (byte,), 'undefined': (undef16,), 'undefined+byte': (undef16, byte), 'cut': (cut,),
         'cut+byte': (cut, byte)}

def buffer(S, items, text=True):
    data = bytearray()
    for it in items: data = data + it(S)
    n = len(data)
    start = S.bv('start', 32)
    S.assume(start <= (1 << 32) - n)
    want, ends = walk(S, data, start)
    D = S.mod('cmdis.disasm')
    F = S.mod('cmdis.formatter').Formatter
    keep = [b for b in data]
    got = []
    last = 'end'
    it = D.Disassembler().disasm(data, start)
    for k in range(n + 1):
        i, err = S.attempt(next, it, None)
        if err is not None:
            last = isa.kind(S, err)
            break
        if i is None: break
        got.append(i)
    S.check(len(got) == len(want), 'as many instructions as decode one after the other')
    S.check(last in ends, 'how the walk ends: %s, not %s' % (' or '.join(ends), last))
    a = start
    body = []
    for x, y in zip(got, want):
        S.eq(x.address, a, 'addresses advance by the size')
        S.check(type(x) is type(y), 'same instruction')
        S.eq(x.size, y.size, 'size')
        a = a + x.size
        body.extend(x.bytes)
        S.check(x.mnemonic == y.mnemonic, 'same mnemonic')
        if text:
            S.eq(F(None).format(x), F(None).format(y), 'same text as decoding that position')
    S.check(len(body) <= n, 'no more bytes than the buffer')
    S.check(S.and_(*[p == q for p, q in zip(body, data)]), 'bytes are the prefix of the buffer')
    S.check(S.and_(*[p == q for p, q in zip(keep, data)]), 'buffer unchanged')
    if len(want) == 2 and not text:
        it = D.Disassembler().disasm(data)
        S.eq([next(it).address for x in want], [0, want[0].size], 'addresses when no start is given')

def seqs(n, kinds=None, tails=None):
    def fn(S):
        items = []
        for k in range(n):
            items.append(ITEMS[S.choice('item', sorted(kinds or ITEMS))])
        items.extend(TAILS[S.choice('tail', sorted(tails or TAILS))])
        buffer(S, items, False)
    return fn

def around(wide, first=None):
    """An arbitrary word between two others."""
    def word(S):
        if wide:
            w = S.bv('word', 32)
            S.assume(((w >> 11) & 31) >= 29)
            S.assume(((w >> 9) & 15) == first)
        else:
            w = S.bv('word', 16)
            S.assume((w >> 11) < 29)
        for e in R.E:
            # lists print at length
            if e.group == 'block' and e.wide == wide and not e.name.endswith('-one'):
                S.assume(S.not_(S.and_((w & e.mask) == e.match, R.count(e.a.regs(e.take(w))) > 1)))
        return isa.data_of(w, wide)
    def fn(S):
        m = ITEMS['mov']
        buffer(S, [word, m])
    return fn

def long(n):
    """A symbolic instruction after n bytes of others."""
    def fn(S):
        fill = bytearray((0x40, 0xf2, 0x01, 0x02)) * (n // 4)     # movw r2, #1
        item = good('movs-imm')(S)
        data = fill + item
        start = S.bv('start', 32)
        S.assume(start <= (1 << 32) - (n + 2))
        want, err = isa.decode(S, item, start + n)
        it = S.mod('cmdis.disasm').Disassembler().disasm(data, start)
        for k in range(n // 4):
            i = next(it)
            if k % 256 == 0 or k > n // 4 - 3:
                S.eq(i.address, start + 4 * k, 'address')
                S.check(i.bytes == fill[:4], 'bytes')
        i = next(it)
        S.eq(i.address, start + n, 'address of the last')
        S.check(S.and_(*[p == q for p, q in zip(i.bytes, item)]), 'bytes of the last')
        F = S.mod('cmdis.formatter').Formatter
        S.eq(F(None).format(i), F(None).format(want), 'text of the last')
        S.check(next(it, None) is None, 'ends')
    return fn

def scenarios(tier):
    out = [Scen('items-%d' % n, seqs(n), order=-n) for n in range(3 if tier == 'quick' else 5)]
    if tier == 'quick':
        out.append(Scen('items-3', seqs(3, ('mov', 'bl', 'undef16', 'undef32', 'unpred32'), ('none', 'undefined', 'cut+byte')),
                        order=-3))
    out.append(Scen('any-halfword', around(False), order=-1))
    for k in range(4, 16): out.append(Scen('any-word-%d' % k, around(True, k)))
    for n in (256, 4096, 65536) if tier == 'quick' else (256, 512, 1024, 4096, 65536, 131072):
        out.append(Scen('long-%d' % n, long(n), order=-4 if n > 60000 else 0))
    return out
