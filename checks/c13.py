from sx.scen import Scen
from checks.common import *
from checks import isa
from ref import thumb as R

BOUNDS = {'quick': 'every 32-bit word at every even address; register lists of up to three or at least thirteen registers',
          'thorough': 'every 32-bit word at every even address'}
OUTSIDE = 'column padding and comments of the printed line (see C27); which way encodings outside the ' \
          'architecture\'s predictable operands are reported, where it leaves that open'

def scenarios(tier):
    out = []
    for e in R.E:
        if not e.wide: continue
        lists = e.group == 'block' and not e.name.endswith('-one')
        out.append(Scen(e.name, isa.prints(e, isa.few(e, 3, 13) if lists and tier == 'quick' else None),
                        order=-1 if lists else 0))
    for k in range(4, 16):
        out.append(Scen('undefined-%d' % k, isa.outside(True, k)))
    return out
