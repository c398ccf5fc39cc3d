"""Scenario descriptions, shared by symbolic and concrete runs."""

class Scen(object):
    """fn(S) judged for all symbolic inputs.  fresh: start every path from newly
    loaded modules (histories).  order: smaller runs earlier."""
    def __init__(self, name, fn, fresh=False, order=0):
        self.name = name
        self.fn = fn
        self.fresh = fresh
        self.order = order
