from sx.scen import Scen
from checks.common import *
from checks.console import *

BOUNDS = {'quick': 'every value below 2^32, written in hexadecimal (either case, with or without underscores), decimal, octal or '
                   'binary, or held in any register named in either case; bracketed forms with no offset, or an offset from -70000 '
                   'to 70000 (decimal or hexadecimal), over arbitrary memory; every core register written with every value and '
                   'printed, with arbitrary values in all the others; reset with arbitrary vectors over two regions and from '
                   'arbitrary registers; starting without a file, and with files of 8 to 12 arbitrary bytes, and with one of 65544 bytes, with '
                   'a stack pointer of up to 0x20008000, 0x20010000 or 0x20100000, looking at every address',
          'thorough': 'as quick, with offsets of up to 2^32 - 1 either way'}
OUTSIDE = ('bracketed forms whose word is not entirely mapped; numbers of more than 32 bits or negative; initial stack pointers that '
           'are no multiple of four or point before the first word of a region; files whose stack pointer makes memory larger')

NAMES = ['r%d' % k for k in range(16)] + ['sp', 'lr', 'pc', 'xpsr', 'msp', 'psp']
SPS = ('sp', 'r13', 'msp', 'psp')

def at(mem, a):
    v = 0
    for k in range(4): v = v | (mem.get((a + k) & M32) << (8 * k))
    return v

def oct_(v): return '0o%o' % v
def under(v): return '0x%04x_%04x' % (v >> 16, v & 0xffff)
def binary(v): return '0b{:08b}'.format(v)
def HEX(v): return '0X%08X' % v
def dec(v): return '%d' % v
def hex_(v): return '0x%x' % v
FORMS = {'hex': hex_, 'HEX': HEX, 'dec': dec, 'oct': oct_, 'under': under, 'binary': binary}

def number(form):
    """wreg stores the number that was written."""
    def fn(S):
        v = S.bv('value', 8 if form == 'binary' else 32)
        stub = isa.Stub(S, *isa.state(S))
        t = tool(S, stub)
        want = isa.Stub(S, stub.regs, stub.mem)
        want.write_register(4, v)
        command(S, t, 'wreg r4 ' + FORMS[form](v))
        untouched(S, stub, want, 'the number is stored')
    return fn

def register(name):
    """As a value, and as a command."""
    def fn(S):
        stub = isa.Stub(S, *isa.state(S))
        t = tool(S, stub)
        before = isa.Stub(S, stub.regs, stub.mem)
        v = t.cpu.read_register(name.lower()).unsigned
        out = command(S, t, name)
        shown(S, out, name, v)
        out = command(S, t, 'reg ' + name)
        shown(S, out, name, v)
        untouched(S, stub, before, 'printing a register')
        before.write_register(4, v)
        command(S, t, 'wreg r4 ' + name)
        untouched(S, stub, before, 'the value of the register is stored')
    return fn

def shown(S, out, name, v):
    S.check(name.lower() in out, 'named')
    toks = [k for k in out.split() if k.startswith('0x')]
    S.check(len(toks) == 1, 'one value')
    S.eq(int(toks[0], 16), v, 'value of the register')

def everything(S):
    """reg shows all of them."""
    stub = isa.Stub(S, *isa.state(S))
    t = tool(S, stub)
    before = isa.Stub(S, stub.regs, stub.mem)
    toks = command(S, t, 'reg').split()
    seen = []
    for name, v in zip(toks[::2], toks[1::2]):
        S.check(name[-1] == ':', 'a name')
        S.eq(int(v, 16), t.cpu.read_register(name[:-1]).unsigned, 'value of ' + name)
        seen.append(name[:-1])
    S.check(len(seen) == len(set(seen)) and set('r%d' % k for k in range(13)) | set(('sp', 'lr', 'pc', 'xpsr')) <= set(seen),
            'every register once')
    untouched(S, stub, before, 'printing registers')

def deref(base, off, most):
    def fn(S):
        stub = isa.Stub(S, *isa.state(S))
        t = tool(S, stub)
        a = S.bv('address', 32)
        arg = base
        if base == 'number': arg = hex(a)
        elif base == 'decimal': arg = dec(a)
        else: t.cpu.write_register(base.lower(), a)
        a = a if base in ('number', 'decimal') else t.cpu.read_register(base.lower()).unsigned
        o = S.bv('offset', most.bit_length()) if off else 0
        S.assume(o <= most)
        if off: arg = arg + ',' + {'+': dec, '-': lambda v: '-' + dec(v), '+x': hex_, '-x': lambda v: '-' + hex_(v)}[off](o)
        if off.startswith('-'): o = 0 - o
        S.assume(a + o >= 0)
        S.assume(a + o + 4 <= M32 + 1)
        want = isa.Stub(S, stub.regs, stub.mem)
        want.write_register(6, at(stub.mem, a + o))
        command(S, t, 'wreg r6 [' + arg + ']')
        untouched(S, stub, want, 'the word is stored')
    return fn

def mock(S):
    """A processor on the real delegate."""
    cpu = S.mod('cmdis.model').CpuModel()
    cpu.delegate = S.mod('cmdis.mock_cpu').MockCpuModelDelegate()
    t = con(S).SimTool()
    t.cpu = cpu
    cpu.write_register('control', S.bv('spsel', 1) << 1)
    for n in NAMES:
        if n not in SPS: cpu.write_register(n, S.bv(n, 32))
    for n in ('msp', 'psp'): cpu.write_register(n, S.bv(n, 30) << 2)
    for n, w in EXTRA: cpu.write_register(n, S.bv(n, w))
    return t

EXTRA = (('primask', 1), ('faultmask', 1), ('basepri', 8))
ALL = NAMES + [n for n, w in EXTRA] + ['control']

def snapshot(t): return {n: t.cpu.read_register(n).unsigned for n in ALL}

def others(S, t, before, but, what):
    for n in ALL:
        if n not in but: S.eq(t.cpu.read_register(n).unsigned, before[n], '%s: %s is unchanged' % (what, n))

SAME = {'sp': 'r13', 'r13': 'sp', 'lr': 'r14', 'r14': 'lr', 'pc': 'r15', 'r15': 'pc'}

def write(name, w, how):
    def fn(S):
        t = mock(S)
        v = S.bv('value', w)
        n = name.lower()
        if n in SPS: v = v & 0xfffffffc
        if n == 'control': v = v << 1
        arg = hex(v)
        if how == 'register':
            t.cpu.write_register('r5' if n != 'r5' else 'r6', v)
            arg = 'r5' if n != 'r5' else 'r6'
        before = snapshot(t)
        command(S, t, 'wreg %s %s' % (name, arg))
        S.eq(t.cpu.read_register(n).unsigned, v, 'the value is stored')
        # stack pointers mirror each other
        but = SPS + ('control',) if n in SPS or n == 'control' else (n, SAME.get(n))
        if n in SPS: but = SPS
        others(S, t, before, but, 'wreg')
        if n in SPS or n == 'control':
            sel = 'psp' if S.branch((t.cpu.read_register('control').unsigned & 2) == 2) else 'msp'
            S.eq(t.cpu.read_register('sp').unsigned, t.cpu.read_register(sel).unsigned, 'SP is the selected stack pointer')
            S.eq(t.cpu.read_register('r13').unsigned, t.cpu.read_register('sp').unsigned, 'r13 is SP')
    return fn

def word(cpu, a, v):
    for k in range(4): cpu.write8(a + k, (v >> (8 * k)) & 0xff)

def inside(S, regions, a, back):
    return S.branch(S.or_(*[S.and_(a >= s + back, a <= s + n - 1 + back) for s, n in regions]))

def vectors(S, t, regions, before, pc, sp, what, zero):
    """PC and SP after a reset."""
    got = t.cpu.read_register('pc').unsigned
    if inside(S, regions, pc, 0): S.eq(got >> 1, pc >> 1, what + ': PC is the reset vector')
    else: S.eq(got, before['pc'], what + ': PC is unchanged')
    got = t.cpu.read_register('sp').unsigned
    if inside(S, regions, sp, 4): S.eq(got, sp, what + ': SP is the initial stack pointer')
    else: S.eq(got, before['sp'], what + ': SP is unchanged')

def reset(S):
    t = mock(S)
    regions = ((0, 0x40), (0x20000000, 0x100))
    for s, n in regions: t.cpu.delegate.add_memory(s, n)
    pc = S.bv('reset vector', 32)
    sp = S.bv('initial stack pointer', 30) << 2
    for s, n in regions: S.assume(sp != s)
    word(t.cpu, 0, sp)
    word(t.cpu, 4, pc)
    before = snapshot(t)
    command(S, t, 'reset')
    vectors(S, t, regions, before, pc, sp, 'reset', False)
    others(S, t, before, SPS + ('pc', 'r15'), 'reset')
    S.eq(t.cpu.read32(0).unsigned, sp, 'memory is unchanged')
    S.eq(t.cpu.read32(4).unsigned, pc, 'memory is unchanged')

class File(object):
    def __init__(self, data):
        self.data = data
        self.closed = 0
    def read(self): return self.data
    def close(self): self.closed += 1

class Args(object):
    debug_level = 'warning'
    binary_file = None

def started(S, data):
    """The tool as main runs it, up to the first prompt."""
    c = con(S)
    t = c.SimTool()
    args = Args()
    if data is not None: args.binary_file = File(data)
    t.get_args = lambda: args
    def eof(*a): raise EOFError()
    old = c.__dict__.get('input')
    c.input = eof
    try: _, rc = S.printed(t.run)
    finally:
        if old is None: del c.input
        else: c.input = old
    S.check(rc == 0, 'ends well')
    return t

RAM = 0x1fff8000

def start(n, sps, big=0):
    def fn(S):
        if n is None:
            t = started(S, None)
            data, pc, sp = [], 0, 0
        else:
            data = [S.bv('byte', 8) for k in range(n)]
            kind = S.choice('stack', sps)
            if kind == 'any':
                sp = S.bv('initial stack pointer', 28) << 2
                S.assume(sp <= 0x20008000)
                S.assume(sp != RAM)
            else: sp = kind
            for k in range(4): data[k] = (sp >> (8 * k)) & 0xff
            if big:
                rest = S.bigbytes('contents', n + big)
                for k, v in enumerate(data): rest[k] = v
            pc = data[4] | (data[5] << 8) | (data[6] << 16) | (data[7] << 24)
            t = started(S, rest if big else bytes(data))
        ram = max(0x10000, S.concrete(sp) - RAM) if n is not None and kind != 'any' else 0x10000
        flash = 0x10000 if not big else len(data) + big
        regions = ((0, flash), (RAM, ram))
        before = {'pc': 0, 'sp': 0}
        vectors(S, t, regions, before, pc, sp, 'start', True)
        for k, v in enumerate(data): S.eq(t.cpu.read8(k).unsigned, v, 'the file is at address 0')
        a = S.bv('look', 32)
        if inside(S, regions, a, 0) and S.branch(a >= len(data)):
            want = rest[a] if big and S.branch(a < n + big) else 0
            S.eq(t.cpu.read8(a).unsigned, want, 'the rest is zero')
            t.cpu.write8(a, 0xa5)
            S.eq(t.cpu.read8(a).unsigned, 0xa5, 'it is memory')
        for r in NAMES:
            if r not in SPS + ('pc', 'r15', 'xpsr'): S.eq(t.cpu.read_register(r).unsigned, 0, 'registers start at zero')
    return fn

def scenarios(tier):
    deep = tier == 'thorough'
    out = [Scen('number-' + f, number(f)) for f in sorted(FORMS)]
    for n in NAMES + ['R0', 'R10', 'SP', 'Lr', 'XPSR']: out.append(Scen('register-' + n, register(n)))
    out.append(Scen('registers', everything))
    for b in ('r3', 'SP', 'number', 'decimal'):
        for off in ('', '+', '-', '+x', '-x'):
            out.append(Scen('deref-%s%s' % (b, off), deref(b, off, M32 if deep else 70000)))
    for n in NAMES + ['R7', 'PC']:
        out.append(Scen('write-' + n, write(n, 32, 'number')))
        out.append(Scen('write-%s-register' % n, write(n, 32, 'register')))
    for n, w in EXTRA + (('control', 1),): out.append(Scen('write-' + n, write(n, w, 'number')))
    out.append(Scen('reset', reset))
    out.append(Scen('start-empty', start(None, ())))
    for n in (8, 12): out.append(Scen('start-%d' % n, start(n, ('any', 0x20010000, 0x20100000))))
    out.append(Scen('start-big', start(8, ('any',), 65536)))
    return out
