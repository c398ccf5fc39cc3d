"""Driving the simulator console (cmdis/__main__.py, converted as the build does)."""
from checks import isa

M32 = 0xffffffff

def con(S): return S.mod('cmdis.console')

def tool(S, stub):
    """A console tool on a processor with this delegate."""
    t = con(S).SimTool()
    t.cpu = isa.cpu_on(S, stub)
    return t

def command(S, t, line):
    """What a command line prints."""
    return S.printed(con(S).SimConsole(t).process_command, line)[0]

def untouched(S, a, b, what):
    S.same(a.regs, b.regs, what + ': registers')
    S.same(a.mem, b.mem, what + ': memory')
