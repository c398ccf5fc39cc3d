from sx.scen import Scen
from checks.common import *
from checks import isa
from ref import thumb as R

BOUNDS = {'quick': 'every branch and address-to-register instruction at every even address and with every offset; any '
                   'register and memory contents',
          'thorough': 'every branch and address-to-register instruction at every even address and with every offset; any '
                      'register and memory contents'}
OUTSIDE = 'odd instruction addresses'

NAMES = [e.name for e in R.E if e.name.startswith('adr')] + ['b', 'bcond', 'bl', 'b.w', 'bcond.w']

def target(e):
    def fn(S):
        word, f, addr, i = isa.legal(S, e)
        regs, mem = isa.state(S, addr)
        stub = isa.Stub(S, regs, mem)
        cpu = isa.cpu_on(S, stub)
        line = S.mod('cmdis.formatter').Formatter(cpu).format(i)
        i.execute(cpu)
        if e.name.startswith('adr'):
            got = stub.regs.get(f.d)
        else:
            got = stub.regs.get(15)
            if e.name.startswith('bcond'): S.assume(R.holds(S, f.cond, regs.get(16)))
        parts = line.split(';')
        S.check(len(parts) == 2, 'one comment')
        S.eq(parts[1].strip(), '0x%x' % got, e.name + ': absolute address is where execution goes')
        op = parts[0].split()[-1]
        d = (got - addr) & 0xffffffff
        S.eq(op, '.%+d' % sgn(S, d, 32), e.name + ': relative offset is the distance to the same target')
    return fn

def scenarios(tier):
    return [Scen(e.name, target(e)) for e in R.E if e.name in NAMES]
