"""Decoding, printing and executing one instruction against ref/thumb.py."""
from ref import thumb as R

M32 = 0xffffffff

class Stub(object):
    """Processor delegate: registers and memory as arrays, no behaviour of its
    own except that stack pointers are word-aligned."""
    def __init__(self, S, regs, mem):
        self.S = S
        self.regs, self.mem = regs.copy(), mem.copy()
        self.reads, self.writes = [], []

    def read_register(self, reg):
        return self.regs.get(reg & 0xff)

    def write_register(self, reg, value):
        S = self.S
        S.check(S.and_(value >= 0, value <= M32), 'register value has 32 bits')
        i = reg & 0xff
        self.regs.put(i, S.ite(is_sp(S, i), value & 0xfffffffc, value))

    def _range(self, addr, n):
        self.S.check(self.S.and_(addr >= 0, addr <= M32), 'address has 32 bits')

    def read_memory(self, addr, size=32):
        self.S.check(size in (8, 16, 32), 'access size')
        self._range(addr, size // 8)
        self.reads.append((addr, size // 8))
        v = 0
        for k in range(size // 8): v = v | (self.mem.get((addr + k) & M32) << (8 * k))
        return v

    def write_memory(self, addr, value, size=32):
        self.S.check(size in (8, 16, 32), 'access size')
        self._range(addr, size // 8)
        for k in range(size // 8): self.mem.put((addr + k) & M32, (value >> (8 * k)) & 0xff)

    def read_memory_block(self, addr, length):
        self._range(addr, length)
        self.reads.append((addr, length))
        return bytearray([self.mem.get((addr + k) & M32) for k in range(length)])

    def write_memory_block(self, addr, data):
        self._range(addr, len(data))
        for k, x in enumerate(data): self.mem.put((addr + k) & M32, x)

def is_sp(S, i):
    return S.or_(i == 13, i == 17, i == 18)

def state(S, addr=None):
    """Arbitrary registers (stack pointers aligned, PC at addr) and memory."""
    regs = S.array('regs', 8, 32)
    mem = S.array('mem', 32, 8)
    for k in (13, 17, 18): S.assume((regs.get(k) & 3) == 0)
    if addr is None:
        S.assume((regs.get(15) & 1) == 0)
    else:
        regs.put(15, addr)
    return regs, mem

def cpu_on(S, stub):
    cpu = S.mod('cmdis.model').CpuModel()
    cpu.delegate = stub
    return cpu

def data_of(word, wide):
    d = [word & 0xff, (word >> 8) & 0xff]
    if wide: d += [(word >> 16) & 0xff, word >> 24]
    return bytearray(d)

def decode(S, data, addr):
    return S.attempt(S.mod('cmdis.disasm').decoder.decode, data, addr)

def kind(S, err):
    """What an error says: None, 'undefined', 'unpredictable' or other."""
    D = S.mod('cmdis.decoder')
    if err is None: return 'decodes'
    if type(err) is D.UndefinedInstructionError: return 'undefined'
    if type(err) is D.UnpredictableError: return 'unpredictable'
    return type(err).__name__

def legal(S, e, extra=None, printing=False):
    """Word, fields and decoded instruction of e, anywhere, with operands
    whose execution is claimed (for printing: any that must decode)."""
    word, f = e.put(S)
    S.assume(e.here(S, f))
    if extra: S.assume(extra(S, f))
    S.assume(S.not_(S.or_(e.unpred(S, f), e.loose(S, f))))
    if not printing: S.assume(S.not_(e.skip(S, f)))
    addr = S.bv('address', 31) << 1
    i, err = decode(S, data_of(word, e.wide), addr)
    S.check(err is None, e.name + ' decodes')
    return word, f, addr, i

def compare(S, stub, M, what=''):
    """State after execution against the reference."""
    if M.alt:
        v = M.regs.get(15)
        got = stub.regs.get(15)
        S.check(S.or_(got == v, got == (v & (M32 - 1))), what + 'loaded PC')
        M.regs.put(15, got)
    S.eq(stub.regs.get(15), M.regs.get(15), what + 'PC')
    # status register field by field, then every other register
    a, b = stub.regs.get(16), M.regs.get(16)
    S.check((a & 0xfffffff) == (b & 0xfffffff), what + 'status register below the flags')
    for k, flag in ((31, 'N'), (30, 'Z'), (29, 'C'), (28, 'V')):
        S.check(((a >> k) & 1) == ((b >> k) & 1), what + flag + ' flag')
    S.same(stub.regs, M.regs, what + 'registers', 16)
    S.same(stub.mem, M.mem, what + 'memory')

def settle_sp(S, M):
    """Stack pointers are word-aligned."""
    for k in (13, 17, 18): M.regs.put(k, M.regs.get(k) & 0xfffffffc)

def run(e, extra=None):
    """Scenario: execute e in any state."""
    def fn(S):
        word, f, addr, i = legal(S, e, extra)
        regs, mem = state(S, addr)
        stub = Stub(S, regs, mem)
        i.execute(cpu_on(S, stub))
        M = R.State(S, regs, mem)
        e.run(S, f, M)
        settle_sp(S, M)
        compare(S, stub, M)
        if M.reads:
            # nothing outside the transferred range is read
            a, n = M.reads[0][0], sum([s for _, s in M.reads]) // 8
            for ra, rn in stub.reads:
                S.check(((ra - a) & M32) + rn <= n, 'reads only the addressed bytes')
        else:
            S.check(not stub.reads, 'reads no memory')
    return fn

def few(e, most, least):
    """Register lists with at most `most` registers, or at least `least`."""
    def cond(S, f):
        n = R.count(e.a.regs(f))
        return S.or_(n <= most, n >= least)
    return cond

def body(line, wide):
    """Mnemonic and operands of a printed instruction."""
    return ' '.join(line.split(';')[0].split()[2 if wide else 1:])

def prints(e, extra=None):
    """Scenario: what e decodes to and prints, for arbitrary fields."""
    def fn(S):
        word, f = e.put(S)
        S.assume(e.here(S, f))
        if extra: S.assume(extra(S, f))
        addr = S.bv('address', 31) << 1
        i, err = decode(S, data_of(word, e.wide), addr)
        k = kind(S, err)
        if S.branch(e.unpred(S, f)):
            S.check(k == 'unpredictable', e.name + ': reported as unpredictable')
            return
        if k == 'unpredictable':
            S.check(e.loose(S, f), e.name + ': its operands are predictable, so it decodes')
            return
        S.check(k == 'decodes', e.name + ': decodes')
        line = S.mod('cmdis.formatter').Formatter(None).format(i)
        S.eq(body(line, e.wide), e.text(S, f, addr).line(), e.name + ': mnemonic and operands')
    return fn

def outside(wide, first=None):
    """Scenario: a word in none of the encodings is undefined.  Wide words are
    split by the value of bits 9 to 12."""
    def fn(S):
        if wide:
            word = S.bv('word', 32)
            S.assume(((word >> 11) & 31) >= 29)
            S.assume(((word >> 9) & 15) == first)
        else:
            word = S.bv('word', 16)
            S.assume((word >> 11) < 29)
        for e in R.E:
            if e.wide == wide:
                S.assume(S.not_(S.and_((word & e.mask) == e.match, e.here(S, e.take(word)))))
        i, err = decode(S, data_of(word, wide), 0)
        S.check(kind(S, err) == 'undefined', 'a word of no supported encoding is undefined')
    return fn
