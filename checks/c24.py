from sx.scen import Scen
from checks.common import *

BOUNDS = {'quick': 'every register and alias (names in four letter cases, index, property, register-set item) written with any '
                   'integer of up to 40 bits or any bit string of 8, 32 or 40 bits, after any values in all registers (set in two '
                   'orders); every alias read back; every index from -300 to 300 of the two register sets; the register dump',
          'thorough': 'as quick, with two such writes in a row'}
OUTSIDE = 'unknown register names; register values written behind the model\'s back'

# register: names it goes by
REGS = [(k, ['r%d' % k]) for k in range(13)]
REGS += [(13, ['sp', 'r13']), (14, ['lr', 'r14']), (15, ['pc', 'r15']), (16, ['xpsr']), (17, ['msp']), (18, ['psp']),
         (33, ['fpscr']), (-4, ['control']), (-3, ['faultmask']), (-2, ['basepri']), (-1, ['primask'])]
REGS += [(0x40 + k, ['s%d' % k]) for k in range(32)]
PROPS = {13: 'sp', 14: 'lr', 15: 'pc', 16: 'xpsr', 17: 'msp', 18: 'psp'}

def cases(n):
    out = [n, n.upper(), n.capitalize(), n[:-1] + n[-1].upper()]
    return [x for k, x in enumerate(out) if x not in out[:k]]

def aliases():
    """(register, how, key) of every way to reach a register."""
    out = []
    for reg, names in REGS:
        out.append((reg, 'index', reg))
        for n in names:
            for c in cases(n): out.append((reg, 'name', c))
        if reg in PROPS: out.append((reg, 'property', PROPS[reg]))
        if 0 <= reg < 16: out.append((reg, 'r', reg))
        if reg >= 0x40: out.append((reg, 's', reg - 0x40))
    return out

ALIASES = aliases()

def read(cpu, how, key):
    if how == 'property': return getattr(cpu, key)
    if how == 'r': return cpu.r[key]
    if how == 's': return cpu.s[key]
    return cpu.read_register(key)

def write(cpu, how, key, v):
    if how == 'property': setattr(cpu, key, v)
    elif how == 'r': cpu.r[key] = v
    elif how == 's': cpu.s[key] = v
    else: cpu.write_register(key, v)

class Regs(object):
    """What the registers should hold."""
    def __init__(self, S):
        self.S = S
        self.v = dict([(r, 0) for r, _ in REGS])
        self.v[16] = None

    def active(self, a, b):
        """a or b, as the control register selects the main or process stack pointer."""
        return self.S.ite((self.v[-4] >> 1) & 1 == 0, a, b)

    def write(self, reg, v):
        v = v & 0xffffffff
        if reg in (-3, -1): v = v & 1
        elif reg == -2: v = v & 0xff
        elif reg in (13, 17, 18): v = v & 0xfffffffc
        if reg == 13:
            self.v[17], self.v[18] = self.active(v, self.v[17]), self.active(self.v[18], v)
        else:
            self.v[reg] = v

    def read(self, reg):
        if reg == 13: return self.active(self.v[17], self.v[18])
        return self.v[reg]

def setup(S, order):
    cpu = S.mod('cmdis.model').CpuModel()
    cpu.delegate = S.mod('cmdis.mock_cpu').MockCpuModelDelegate()
    M = Regs(S)
    regs = [r for r, _ in REGS if r != 13]
    if order == 'control last': regs = [r for r in regs if r != -4] + [-4]
    else: regs = [-4] + [r for r in regs if r != -4]
    for r in regs:
        v = S.bv('r%d' % r, 32)
        cpu.write_register(r, v)
        M.write(r, v)
    return cpu, M

def compare(S, cpu, M, what):
    B = bsmod(S).bitstring
    for reg, how, key in ALIASES:
        got = read(cpu, how, key)
        S.check(type(got) is B, 'registers read as bit strings')
        S.check(got.width == 32, 'of 32 bits')
        S.check(got.value == M.read(reg), '%s: %s %s' % (what, how, key))

def value(S, kind):
    if kind == 'int': v = S.int('value', -(1 << 39), 1 << 40)
    else: v = S.bv('value', kind)
    return (v if kind == 'int' else bsmod(S).bitstring(v, kind)), v

def writes(regs, kinds, n=1):
    def fn(S):
        cpu, M = setup(S, S.choice('order', ('control last', 'control first')))
        reg, how, key = S.choice('alias', [a for a in ALIASES if a[0] in regs])
        for k in range(n):
            if k:
                reg, how, key = S.choice('alias', [a for a in ALIASES if a[0] in (13, 17, 18, -4, -3, 4) and a[1] != 'name'])
            x, v = value(S, S.choice('kind', kinds))
            write(cpu, how, key, x)
            M.write(reg, v)
        compare(S, cpu, M, 'after writing %s %s' % (how, key))
    return fn

def ranges(which, top):
    def fn(S):
        cpu, M = setup(S, 'control first')
        k = S.int('index', -300, 300)
        S.assume(S.or_(k < 0, k > top))
        rs = getattr(cpu, which)
        v, err = S.attempt(lambda: rs[k])
        S.check(type(err) is KeyError, 'reading outside the register set')
        def put(): rs[k] = 1
        v, err = S.attempt(put)
        S.check(type(err) is KeyError, 'writing outside the register set')
        compare(S, cpu, M, 'after a rejected write')
    return fn

def item(which, top, base):
    """Register-set items by an arbitrary index."""
    def fn(S):
        cpu, M = setup(S, 'control last')
        k = S.int('index', 0, top)
        v = S.bv('value', 32)
        getattr(cpu, which)[k] = v
        M.write(S.concrete(k) + base, v)
        compare(S, cpu, M, 'after writing an item')
    return fn

def apart(S):
    """Two processors share nothing."""
    cpu, M = setup(S, 'control first')
    two = S.mod('cmdis.model').CpuModel()
    two.delegate = S.mod('cmdis.mock_cpu').MockCpuModelDelegate()
    for r, _ in REGS: two.write_register(r, S.bv('other', 32))
    two.delegate.add_memory(0, 4)
    two.write32(0, 5)
    compare(S, cpu, M, 'after writing another processor')
    S.check(cpu.read32(0).value == 0, 'memory of another processor')

def dump(S):
    """The printed register dump."""
    cpu, M = setup(S, S.choice('order', ('control last', 'control first')))
    got = S.printed(cpu.dump)[0]
    want = ''
    for row in ('r0=%08x    r4=%08x    r8 =%08x   r12=%08x', 'r1=%08x    r5=%08x    r9 =%08x   sp =%08x',
                'r2=%08x    r6=%08x    r10=%08x   lr =%08x', 'r3=%08x    r7=%08x    r11=%08x   pc =%08x'):
        k = int(row[1])
        want += row % tuple([M.read(n) for n in (k, k + 4, k + 8, k + 12)]) + '\n'
    S.eq(got, want, 'register dump')
    compare(S, cpu, M, 'after a register dump')

def scenarios(tier):
    out = []
    n = 1 if tier == 'quick' else 2
    for name, regs in (('low', range(0, 8)), ('high', range(8, 13)), ('special', (13, 14, 15, 16, 17, 18)),
                       ('masks', (33, -4, -3, -2, -1)), ('float', range(0x40, 0x60))):
        kinds = ('int', 32, 40, 8) if name in ('special', 'masks') else ('int', 32)
        out.append(Scen('write-' + name, writes(list(regs), kinds, n), order=-1))
    out.append(Scen('range-r', ranges('r', 15)))
    out.append(Scen('range-s', ranges('s', 31)))
    out.append(Scen('item-r', item('r', 15, 0)))
    out.append(Scen('item-s', item('s', 31, 0x40)))
    out.append(Scen('apart', apart))
    out.append(Scen('dump', dump))
    return out
