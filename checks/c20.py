from sx.scen import Scen
from checks.common import *
from checks import isa
from ref import thumb as R

BOUNDS = {'quick': 'every supported encoding of the group with arbitrary operand fields, address, registers, flags and '
                   'memory; one instruction'}
BOUNDS['thorough'] = BOUNDS['quick']
OUTSIDE = 'operands the architecture leaves unpredictable; PC as operand or destination; odd instruction addresses'

def scenarios(tier):
    return [Scen(e.name, isa.run(e)) for e in R.E if e.group == 'mem']
