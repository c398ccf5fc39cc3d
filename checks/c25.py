from sx.scen import Scen
from checks.common import *

BOUNDS = {'quick': 'every value of the status and control registers; up to three flags set in a row, to zero or one given as '
                   'integer, truth value or bit string',
          'thorough': 'as quick, with up to five flags set in a row'}
OUTSIDE = 'values other than zero and one'

FLAGS = (('n', 31), ('z', 30), ('c', 29), ('v', 28))

def cpu_with(S):
    cpu = S.mod('cmdis.model').CpuModel()
    cpu.delegate = S.mod('cmdis.mock_cpu').MockCpuModelDelegate()
    x, c, r = S.bv('xpsr', 32), S.bv('control', 32), S.bv('r3', 32)
    cpu.xpsr = x
    cpu.write_register('control', c)
    cpu.write_register('r3', r)
    return cpu, x, c, r

def views(S, cpu, x, c, r, what):
    B = bsmod(S).bitstring
    for name, bit in FLAGS:
        S.check(getattr(cpu.apsr, name) == ((x >> bit) & 1), '%s: flag %s' % (what, name))
    S.check(cpu.xpsr.value == x, what + ': status register')
    S.check(cpu.ipsr.width == 9, what + ': width of the exception number')
    S.check(cpu.ipsr.value == (x & 0x1ff), what + ': exception number')
    S.check(cpu.is_privileged == ((c & 1) == 0), what + ': privilege')
    S.check(cpu.control.value == c, what + ': control register')
    S.check(cpu.r[3].value == r, what + ': other registers')

def sets(n):
    def fn(S):
        cpu, x, c, r = cpu_with(S)
        views(S, cpu, x, c, r, 'initially')
        for k in range(n):
            name, bit = S.choice('flag', FLAGS)
            kind = S.choice('kind', ('int', 'bool', 'bits'))
            if kind == 'int': v = b = S.bv('value', 1)
            elif kind == 'bool':
                v = S.bool('truth')
                b = S.ite(v, 1, 0)
            else: v, b = mkbs(S, 'bit', 1)
            setattr(cpu.apsr, name, v)
            x = (x & (0xffffffff ^ (1 << bit))) | (b << bit)
            views(S, cpu, x, c, r, 'after setting ' + name)
    return fn

def held(S):
    """A status register value read earlier does not change later."""
    cpu, x, c, r = cpu_with(S)
    old = cpu.xpsr
    f = cpu.apsr.z
    name, bit = S.choice('flag', FLAGS)
    setattr(cpu.apsr, name, S.bv('value', 1))
    S.check(old.value == x, 'status register value read before')
    S.check(f == ((x >> 30) & 1), 'flag value read before')
    # nor does changing it change the processor
    y = cpu.xpsr
    was = y.value
    y[S.int('bit', 0, 31)] = S.bv('other', 1)
    S.check(cpu.xpsr.value == was, 'changing a value that was read')

def scenarios(tier):
    return [Scen('set-%d' % n, sets(n)) for n in range(1, 4 if tier == 'quick' else 6)] + [Scen('held', held)]
