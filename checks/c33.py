from sx.scen import Scen
from checks.common import *
from checks.console import *
from checks.c32 import mock, snapshot

BOUNDS = {'quick': 'lines of two commands out of sixteen kinds, in every order, and some of three, with arbitrary values, registers '
                   'and memory, punctuated in six ways; empty lines after one or two such lines; every name of every command, in '
                   'either case; unknown names of up to three characters out of 16; 25 kinds of unusable arguments, byte values of up '
                   'to 32 bits',
          'thorough': 'as quick, with every order of three commands and unknown names of up to four characters'}
OUTSIDE = ('Python expressions ($); interrupts from the keyboard; commands documented in the help that do not exist (status); what the '
           'messages say')

def session(S, t, lines):
    """What a session with these lines prints, and how it ends."""
    c = con(S)
    left = list(lines)
    def line(prompt=''):
        if not left: raise EOFError
        return left.pop(0)
    def go():
        try: c.SimConsole(t).run()
        except c.ToolExitException: return 'exit'
        return 'end'
    c.input = line
    try: out, how = S.printed(go)
    finally: del c.input
    return out, how, len(left)

def machine(S, regs, mem):
    stub = isa.Stub(S, regs, mem)
    return stub, tool(S, stub)

# command lines with values of their own
def v32(S, n): return hex(S.bv(n, 32))
def v8(S, n): return hex(S.bv(n, 8))
def wide(S): return '0x%08x' % S.bv('address', 31)
KINDS = {
    'reg': lambda S: 'reg r0',
    'name': lambda S: 'sp',
    'wreg': lambda S: 'wreg r0 ' + v32(S, 'value'),
    'copy': lambda S: 'wreg r1 r0',
    'wsp': lambda S: 'wreg sp ' + v32(S, 'value'),
    'read8': lambda S: 'read8 ' + wide(S) + ' 3',
    'read16': lambda S: 'rh r0 2',
    'read32': lambda S: 'r32 ' + wide(S),
    'write8': lambda S: 'w ' + wide(S) + ' ' + v8(S, 'value') + ' ' + v8(S, 'value'),
    'write16': lambda S: 'wh ' + wide(S) + ' 0x%x' % S.bv('value', 16),
    'write32': lambda S: 'write32 ' + wide(S) + ' ' + v32(S, 'value'),
    'info': lambda S: 'info',
    'map': lambda S: 'map',
    'log': lambda S: 'log warning',
    'unknown': lambda S: 'frobnicate r0 1',
    'wrong': lambda S: 'wreg r0 zebra',
}
MARKS = (';', '; ', ' ; ', ' ;', ';;', ';  ;')
SETUP = [('r0', 31)]

def start(S):
    """Two machines in the same arbitrary state."""
    regs, mem = isa.state(S)
    a, b = machine(S, regs, mem), machine(S, regs, mem)
    for k in (a, b): k[1].cpu.write_register('r0', k[1].cpu.r[0].unsigned & 0x7fffffff)
    return a, b

def agree(S, a, b, x, y):
    S.eq(x[0], y[0], 'printed text')
    S.check(x[1] == y[1], 'how the session ends')
    untouched(S, a[0], b[0], 'the same effect')

def several(kinds, marks):
    """One line with several commands, and one line each."""
    def fn(S):
        a, b = start(S)
        cmds = [KINDS[k](S) for k in kinds]
        mark = S.choice('mark', marks)
        line = mark.join(cmds)
        if S.choice('end', (0, 1)): line += mark
        agree(S, a, b, session(S, a[1], [line]), session(S, b[1], list(cmds)))
    return fn

def repeat(kinds, before):
    """An empty line stands for the line before it."""
    def fn(S):
        a, b = start(S)
        cmds = [KINDS[k](S) for k in kinds]
        line = ';'.join(cmds)
        first = [KINDS[before](S)] if before else []
        empty = S.choice('empty', ('', '  '))
        agree(S, a, b, session(S, a[1], [empty] + first + [line, empty, empty]), session(S, b[1], first + [line] * 3))
    return fn

def values(S):
    """Every command of a line has its effect, whatever becomes of the others."""
    regs, mem = isa.state(S)
    stub, t = machine(S, regs, mem)
    want = isa.Stub(S, stub.regs, stub.mem)
    vs = [S.bv('value', 32) for k in range(3)]
    bad = S.choice('between', ('', 'frobnicate', 'wreg r0 zebra', 'wreg nothing 1', 'read8', 'reg r77', 'log no'))
    cmds = ['wreg r%d ' % k + hex(v) for k, v in enumerate(vs)]
    for k, v in enumerate(vs): want.write_register(k, v)
    line = cmds[0] + ';' + bad + ';' + cmds[1]
    out, how, left = session(S, t, S.choice('lines', ([line, cmds[2]], [line + ';' + cmds[2]], [bad, line, bad, cmds[2]])))
    S.check(how == 'end' and left == 0, 'the session goes on to its end')
    untouched(S, stub, want, 'all values are stored')

ALIASES = {'info': 'i', 'read8': 'read r rb', 'read16': 'r16 rh', 'read32': 'r32 rw', 'write8': 'write w wb', 'write16': 'w16 wh',
           'write32': 'w32 ww', 'reg': '', 'wreg': '', 'log': '', 'exit': 'quit', 'step': 's', 'disasm': 'd', 'help': '?', 'reset': ''}
ARGS = {'read8': ('r0', 'r0 4'), 'read16': ('r0', 'r0 4'), 'read32': ('r0', 'r0 8'), 'write8': ('r0 %#x',), 'write16': ('r0 %#x 1',),
        'write32': ('r0 %#x 2',), 'reg': ('', 'r3', 'PC'), 'wreg': ('r5 %#x', 'LR r0'), 'log': ('warning', 'bogus', '')}

def alias(name, other):
    def fn(S):
        a, b = start(S)
        pad = S.choice('pad', ('', '  '))
        arg = S.choice('args', ARGS.get(name, ('',)))
        if '%' in arg: arg = arg % S.bv('value', 8)
        for k in (a, b):
            if name in ('step', 'disasm'):
                # something simple to run: mov r1, r0
                k[1].cpu.write_register('pc', 0x100)
                k[1].cpu.write_memory_block(0x100, bytearray([1, 0x46, 1, 0x46, 1, 0x46]))
        agree(S, a, b, session(S, a[1], [pad + other + ' ' + arg + pad]), session(S, b[1], [name + ' ' + arg]))
    return fn

KNOWN = set('info i reg wreg reset read8 read r rb read16 r16 rh read32 r32 rw write8 write w wb write16 w16 wh write32 w32 ww step s '
            'help ? disasm d log exit quit map status stat'.split())
REGS = set(['r%d' % k for k in range(16)] + ['s%d' % k for k in range(32)] + 'sp lr pc xpsr msp psp primask faultmask basepri control fpscr'.split())

def unknown(n):
    """Any other name is refused."""
    def fn(S):
        name = S.letters('letter', n, 'rwbhdeisp0168?_q')
        S.assume(not name in KNOWN)
        S.assume(not name in REGS)
        nothing(S, name + S.choice('args', ('', ' r0', ' r0 1')))
    return fn

def nothing(S, line):
    """The line is reported, changes nothing, and the session goes on."""
    regs, mem = isa.state(S)
    stub, t = machine(S, regs, mem)
    before = isa.Stub(S, regs, mem)
    v = S.bv('value', 32)
    out, how, left = session(S, t, [line])
    S.check(how == 'end', 'the session goes on')
    S.check('rror' in out or 'xception' in out or 'nvalid' in out, 'it is reported')
    untouched(S, stub, before, 'nothing has changed')

BAD = ('wreg', 'wreg r0', 'wreg foo 1', 'wreg r0 zebra', 'wreg r0 0xg', 'wreg r0 0b2', 'wreg 5 5', 'reg foo', 'reg r16', 'read8', 'read16', 'read32',
       'read8 zebra', 'read32 [', 'read8 0x100 zebra', 'write8', 'write8 0x100', 'write16 0x100', 'write32 zebra 1', 'write8 0x100 1 zebra',
       'write32 0x100 0x12345678 1z', 'write8 0x100 -1', 'log', 'log loud', 'wreg r0 [0x100,zebra]')

def simulator(line):
    """The same with the real delegate."""
    def fn(S):
        t = mock(S)
        t.cpu.delegate.add_memory(0x100, 8)
        data = S.bytes('byte', 8)
        t.cpu.write_memory_block(0x100, data)
        before = snapshot(t)
        out, how, left = session(S, t, [line])
        S.check(how == 'end', 'the session goes on')
        S.check('rror' in out or 'xception' in out or 'nvalid' in out, 'it is reported')
        after = snapshot(t)
        for n in sorted(before): S.eq(after[n], before[n], n)
        for k, b in enumerate(t.cpu.read_memory_block(0x100, 8)): S.eq(b, data[k], 'memory')
    return fn

def wrong(line):
    return lambda S: nothing(S, line)

def toolarge(S):
    """A byte of more than eight bits."""
    v = S.bv('value', 32)
    S.assume(v > 255)
    nothing(S, S.choice('line', ('write8 0x100 ', 'w 0x100 1 ')) + hex(v) + S.choice('more', ('', ' 2')))

def leaving(S):
    """exit ends it there and then."""
    regs, mem = isa.state(S)
    stub, t = machine(S, regs, mem)
    want = isa.Stub(S, stub.regs, stub.mem)
    vs = [S.bv('value', 32) for k in range(2)]
    cmds = ['wreg r%d ' % k + hex(v) for k, v in enumerate(vs)]
    out_ = S.choice('exit', ('exit', 'quit', 'EXIT', 'exit now'))
    want.write_register(0, vs[0])
    out, how, left = session(S, t, S.choice('lines', ([cmds[0], out_, cmds[1]], [cmds[0] + ';' + out_ + ';' + cmds[1], cmds[1]],
                                                     [cmds[0], out_ + ';' + cmds[1], cmds[1]])))
    S.check(how == 'exit', 'the session ends')
    untouched(S, stub, want, 'what came before exit is done, what comes after is not')

THREE = (('wreg', 'copy', 'reg'), ('write8', 'wrong', 'read8'), ('wreg', 'unknown', 'copy'), ('wsp', 'write32', 'name'),
         ('read16', 'info', 'wreg'), ('log', 'wreg', 'copy'))

def scenarios(tier):
    out = []
    ks = sorted(KINDS)
    for x in ks:
        out.append(Scen('one-' + x, several((x,), MARKS)))
        out.append(Scen('again-' + x, repeat((x,), '')))
        for y in ks:
            out.append(Scen('%s-%s' % (x, y), several((x, y), MARKS if (len(x) + len(y)) % 4 == 0 else MARKS[:1])))
            if tier == 'thorough':
                for z in ks: out.append(Scen('%s-%s-%s' % (x, y, z), several((x, y, z), MARKS[:1])))
    for k, c in enumerate(THREE):
        out.append(Scen('three-%d' % k, several(c, MARKS)))
        out.append(Scen('again-three-%d' % k, repeat(c, ('', 'wreg', 'write8')[k % 3])))
        out.append(Scen('again-two-%d' % k, repeat(c[:2], ('wreg', '', 'name')[k % 3])))
    out.append(Scen('values', values))
    for name in sorted(ALIASES):
        for other in ALIASES[name].split() + [name.upper(), name.capitalize()]:
            if name != 'reset': out.append(Scen('alias-%s-%s' % (name, other), alias(name, other)))
    for n in (1, 2, 3, 4)[:3 if tier == 'quick' else 4]: out.append(Scen('unknown-%d' % n, unknown(n)))
    for k, line in enumerate(BAD):
        out.append(Scen('wrong-%d' % k, wrong(line)))
        out.append(Scen('simulator-%d' % k, simulator(line)))
    out.append(Scen('toolarge', toolarge))
    out.append(Scen('leaving', leaving))
    return out
