from sx.scen import Scen
from checks.common import *
from checks import isa
from ref import thumb as R

BOUNDS = {'quick': 'every supported push, pop, load-multiple and store-multiple encoding with arbitrary fields, address, '
                   'registers, flags and memory; all lists for 16-bit encodings, lists of up to three or at least thirteen registers '
                   'for 32-bit ones; one instruction',
          'thorough': 'as quick, with every register list'}
OUTSIDE = ('operands the architecture leaves unpredictable; storing a listed base that is not the lowest register; '
           'loading SP by a one-register pop; odd instruction addresses')

def scenarios(tier):
    out = []
    for e in R.E:
        if e.group != 'block': continue
        wide = e.wide and not e.name.endswith('-one') and tier == 'quick'
        out.append(Scen(e.name, isa.run(e, isa.few(e, 3, 13) if wide else None), order=-1 if e.wide else 0))
    return out
