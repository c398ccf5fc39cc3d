from sx.scen import Scen
from checks.common import *
from checks import isa
from ref import thumb as R

BOUNDS = {'quick': 'every halfword at every even address', 'thorough': 'every halfword at every even address'}
OUTSIDE = 'column padding and comments of the printed line (see C27)'

def scenarios(tier):
    out = [Scen(e.name, isa.prints(e)) for e in R.E if not e.wide]
    out.append(Scen('undefined', isa.outside(False), order=-1))
    return out
