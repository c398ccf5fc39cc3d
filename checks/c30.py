from sx.scen import Scen
from checks.common import *
from checks.console import *

BOUNDS = {'quick': 'reads of 1 to 20 elements or of the default length, of each size, from any address, and writes of 1 to 4 '
                   'elements of each size to any address, with arbitrary memory, registers and values; addresses, lengths and values '
                   'given as registers or as numbers; every name of each command',
          'thorough': 'as quick, with up to 70 elements read and 9 written'}
OUTSIDE = ('read lengths that are no multiple of the element size; ranges not entirely mapped; written values that do not fit '
           'the element size')

NAMES = {8: ('r', 'read', 'read8', 'rb'), 16: ('rh', 'read16', 'r16'), 32: ('rw', 'read32', 'r32')}
WNAMES = {8: ('w', 'write', 'write8', 'wb'), 16: ('wh', 'write16', 'w16'), 32: ('ww', 'write32', 'w32')}

def hexval(S, text, digits):
    """Value of a token of exactly so many hexadecimal digits."""
    S.check(len(text) == digits, 'token of %d digits' % digits)
    return int(text, 16)

def dump(S, text, addr, values, width):
    """The printed dump shows exactly these values at their addresses."""
    k = 0
    for line in text.split('\n'):
        if not line.split(): continue
        S.check(':' in line, 'an address starts every line')
        head, rest = line.split(':', 1)
        S.eq(hexval(S, head, 8), addr + k * (width // 8), 'address of a line')
        for tok in rest.split():
            S.check(k < len(values), 'no more values than asked for')
            S.eq(hexval(S, tok, width // 4), values[k], 'value %d' % k)
            k += 1
    S.check(k == len(values), 'every value is shown')

def place(S, t, n, form):
    """A command argument for an address with n bytes after it, and the address."""
    a = S.bv('address', 32)
    S.assume(a + n <= M32 + 1)
    if form == 'register':
        t.cpu.write_register('r3', a)
        return 'r3', a
    return hex(a), a

def element(mem, a, k, size):
    v = 0
    for j in range(size): v = v | (mem.get((a + k * size + j) & M32) << (8 * j))
    return v

def reads(width, n, name, form):
    size = width // 8
    def fn(S):
        stub = isa.Stub(S, *isa.state(S))
        t = tool(S, stub)
        arg, a = place(S, t, (n or 1) * size, form)
        line = name + ' ' + arg
        if n: line += ' ' + ('0x%x' if form == 'register' else '%d') % (n * size)
        before = isa.Stub(S, stub.regs, stub.mem)
        out = command(S, t, line)
        if form == 'register': out = out.split('\n', 1)[1]   # the register's value
        dump(S, out, a, [element(before.mem, a, k, size) for k in range(n or 1)], width)
        untouched(S, stub, before, 'reading')
    return fn

REGS = ('r5', 'R7', 'lr')

def writes(width, n, name, form):
    size = width // 8
    def fn(S):
        stub = isa.Stub(S, *isa.state(S))
        t = tool(S, stub)
        arg, a = place(S, t, n * size, form)
        vs = [S.bv('value', width) for k in range(n)]
        line = name + ' ' + arg
        for k, v in enumerate(vs):
            if form == 'register' and k < len(REGS):
                t.cpu.write_register(REGS[k], v)
                line += ' ' + REGS[k]
            else: line += ' ' + hex(v)
        want = isa.Stub(S, stub.regs, stub.mem)
        command(S, t, line)
        for k, v in enumerate(vs):
            for j in range(size): want.mem.put((a + k * size + j) & M32, (v >> (8 * j)) & 0xff)
        untouched(S, stub, want, 'exactly the given values are stored')
    return fn

def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    for w in (8, 16, 32):
        for form in ('register', 'number'):
            for n in range(71 if deep else 21):
                out.append(Scen('%s-%s-%d' % (NAMES[w][0], form, n), reads(w, n, NAMES[w][0], form)))
            for n in range(1, 10 if deep else 5):
                out.append(Scen('%s-%s-%d' % (WNAMES[w][0], form, n), writes(w, n, WNAMES[w][0], form)))
        for name in NAMES[w][1:]: out.append(Scen(name, reads(w, 2, name, 'register')))
        for name in WNAMES[w][1:]: out.append(Scen(name, writes(w, 2, name, 'register')))
    return out
