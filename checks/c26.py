from sx.scen import Scen
from checks.common import *

BOUNDS = {'quick': 'a region of 65536 bytes, or of 1 to 5 bytes, or two regions of 3 and 4 bytes (adjacent or apart, mapped in '
                   'either order), at every address; zero to two accesses (8, 16, 32 bits or a block of 0, 1, 3 or 6 bytes) at every '
                   'address with arbitrary data, then one read of any kind anywhere; writes and reads that name no size, and straight through the '
                   'memory delegate',
          'thorough': 'as quick, with up to three accesses, and three regions'}
OUTSIDE = 'overlapping regions; regions beyond the 32-bit address space; block reads that start outside all regions'

M32 = 0xffffffff
LENGTHS = (0, 1, 3, 6)

class Region(object):
    def __init__(self, S, start, size):
        self.S = S
        self.start = start
        self.size = size
        self.big = size > 8
        self.data = S.zeros(32, 8) if self.big else [0] * size
    def place(self, a):
        o = a - self.start
        return o if self.big else self.S.concrete(o)
    def get(self, o):
        return self.data.get(o) if self.big else self.data[o]
    def put(self, o, v):
        if self.big: self.data.put(o, v)
        else: self.data[o] = v

class Ref(object):
    """Bytes at addresses."""
    def __init__(self, S, regions):
        self.S = S
        self.regions = [Region(S, s, n) for s, n in regions]

    def find(self, a, n):
        S = self.S
        for r in self.regions:
            if S.branch(S.and_(a >= r.start, a + n <= r.start + r.size)): return r, r.place(a)
        return None, None

    def read(self, a, size):
        r, o = self.find(a, size // 8)
        if r is None: return 0
        v = 0
        for k in range(size // 8): v = v | (r.get(o + k) << (8 * k))
        return v

    def write(self, a, v, size):
        r, o = self.find(a, size // 8)
        if r is None: return
        for k in range(size // 8): r.put(o + k, (v >> (8 * k)) & 0xff)

    def write_block(self, a, data):
        r, o = self.find(a, 1)
        if r is None: return
        for k in range(len(data)):
            if self.S.branch(o + k < r.size): r.put(o + k, data[k])

    def read_block(self, a, n):
        r, o = self.find(a, 1)
        self.S.assume(r is not None)
        return [r.get(o + k) for k in range(n) if self.S.branch(o + k < r.size)]

def machine(S, lens, gap, starts):
    cpu = S.mod('cmdis.model').CpuModel()
    cpu.delegate = S.mod('cmdis.mock_cpu').MockCpuModelDelegate()
    regions = []
    for k, n in enumerate(lens):
        s = starts[k] if starts else S.bv('start', 32)
        if k and not starts:
            p, l = regions[-1]
            S.assume(s == p + l if gap == 'adjacent' else s >= p + l + 1)
        if not starts: S.assume(s + n <= M32 + 1)
        regions.append((s, n))
    # the order regions are mapped in does not matter
    for s, n in (regions if gap != 'reversed' else reversed(regions)): cpu.delegate.add_memory(s, n)
    return cpu, Ref(S, regions)

# past the functions named after a size
DIRECT = ('default', 'delegate', 'delegate default')

ACCESS = ('8', '16', '32', 'block')

def access(S, cpu, M, kind, through, lengths):
    a = S.bv('address', 32)
    if kind == 'block':
        data = S.bytes('data', S.choice('length', lengths))
        cpu.write_memory_block(a, data)
        M.write_block(a, data)
    else:
        size = int(kind)
        v = S.bv('value', 32)
        if through == 'default': cpu.write_memory(a, v)
        elif through == 'delegate': cpu.delegate.write_memory(a, v, size)
        elif through == 'delegate default': cpu.delegate.write_memory(a, v)
        elif through: cpu.write_memory(bsmod(S).bitstring(a, 32), bsmod(S).bitstring(v, 32), size)
        else: (cpu.write8, cpu.write16, cpu.write32)[size // 16](a, v)
        M.write(a, v, size)

def observe(S, cpu, M, lengths, through=False):
    a = S.bv('where', 32)
    if through in DIRECT:
        size = 32 if 'default' in through else S.choice('read', (8, 16, 32))
        if through == 'default':
            got = cpu.read_memory(a)
            S.check(got.width == 32, 'width')
            got = got.value
        elif through == 'delegate': got = cpu.delegate.read_memory(a, size)
        else: got = cpu.delegate.read_memory(a)
        S.eq(got, M.read(a, size), 'read')
        return
    kind = S.choice('read', ACCESS)
    if kind == 'block':
        n = S.choice('read length', lengths)
        want = M.read_block(a, n)
        got = cpu.read_memory_block(a, n)
        S.check(len(got) == len(want), 'block clipped at the end of the region')
        for g, w in zip(got, want): S.eq(g, w, 'byte of a block')
    else:
        size = int(kind)
        got = (cpu.read8, cpu.read16, cpu.read32)[size // 16](a)
        S.check(got.width == size, 'width')
        S.eq(got.value, M.read(a, size), '%d-bit read' % size)

def history(lens, gap, kinds, starts=None, lengths=LENGTHS, through=False):
    def fn(S):
        cpu, M = machine(S, lens, gap, starts)
        for k in kinds: access(S, cpu, M, k, through, lengths)
        observe(S, cpu, M, lengths, through)
    return fn

# the last one ends where the address space does
PLACES = {1: 0x2000, 2: 3, 3: 0x1ffffffe, 4: 0, 5: (1 << 32) - 5, 0x10000: 0x1fff8000}

def scenarios(tier):
    out = []
    def add(name, *a, **k): out.append(Scen(name, history(*a, **k)))
    deep = tier == 'thorough'
    gaps = ('adjacent', 'apart', 'reversed')
    for n in (1, 2, 3, 4, 5, 0x10000): add('any%d' % n, (n,), None, ())
    for gap in gaps: add('two-' + gap, (3, 4), gap, ())
    for k in ACCESS:
        for n in (1, 3, 5, 0x10000) if deep or k != 'block' else (2, 0x10000): add('any%d-%s' % (n, k), (n,), None, (k,))
        for n in (1, 2, 3, 4, 5, 0x10000): add('at%d-%s' % (n, k), (n,), None, (k,), (PLACES[n],))
        add('objects-' + k, (0x10000,), None, (k,), (0,), (1,), True)
        for through in DIRECT:
            if k != 'block' and (k == '32' or 'default' not in through):
                add('%s-%s' % (through, k), (5,), None, (k,), (0x100,), (1,), through)
        add('two-%s' % k, (3, 4), None, (k,), (0x100, 0x103))
        add('swapped-%s' % k, (4, 3), None, (k,), (0x103, 0x100))
        if deep:
            for gap in gaps: add('two-%s-%s' % (gap, k), (3, 4), gap, (k,))
            add('three-' + k, (2, 1, 3), 'apart', (k,))
        for j in ACCESS:
            for n in (4, 0x10000) if not deep else (1, 2, 3, 4, 5, 0x10000):
                add('at%d-%s-%s' % (n, k, j), (n,), None, (k, j), (PLACES[n],), LENGTHS if deep and n < 4 else (3,))
            if deep:
                add('two-%s-%s' % (k, j), (3, 2), None, (k, j), (0x102, 0x100), (4,))
                for i in ACCESS:
                    for n in (3, 0x10000): add('at%d-%s-%s-%s' % (n, k, j, i), (n,), None, (k, j, i), (PLACES[n],), (2,))
    return out
