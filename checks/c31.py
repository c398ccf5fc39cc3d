from sx.scen import Scen
from checks.common import *
from checks.console import *
from checks import c15
from ref import thumb as R

BOUNDS = {'quick': 'step: every supported encoding with arbitrary fields, and undefined and unpredictable words, at every PC (either '
                   'lowest bit), with arbitrary registers and memory (register shifts: amounts up to one; register lists of up to '
                   'two registers), also in the last two or three bytes of memory; disassembly of up to two items of six kinds '
                   '(three of three kinds, centred two of three), at an address in a register, a number or the PC, with or without centring, PC anywhere',
          'thorough': 'as quick, with shift amounts up to three, and up to three items of all kinds'}
OUTSIDE = 'steps and disassembly that start in no memory region; disassembly listings that run into an unpredictable word'

class Clipped(isa.Stub):
    """Memory that ends somewhere."""
    end = None
    def read_memory_block(self, addr, length):
        n = length if self.end is None else self.S.concrete(self.S.ite(self.end - addr < length, self.end - addr, length))
        return isa.Stub.read_memory_block(self, addr, n)

def amounts(S, e, f, regs, most):
    if e.name in ('lsls-reg', 'lsrs-reg', 'asrs-reg', 'rors-reg'): S.assume((regs.get(f.m) & 0xff) <= most)
    if e.group == 'block' and not e.name.endswith('-one'): S.assume(R.count(e.a.regs(f)) <= 2)

def lines(text):
    return [l for l in text.split('\n') if l.split()]

def shows(S, line, addr, i, marked=None):
    """A printed line: address, perhaps a mark, instruction."""
    head, rest = line.split(':', 1)
    S.check(len(head) == 10, 'address of eight digits')
    S.eq(int(head, 16), addr, 'address')
    if marked is not None:
        S.check((rest[0] == '*') == S.branch(marked), 'the mark is at the PC')
        if rest[0] == '*': rest = rest[1:]
    text = S.mod('cmdis.formatter').Formatter(None).format(i)
    S.check(rest.strip() == text.strip(), 'the instruction')

def machine(S, addr, data, pc):
    regs, mem = isa.state(S)
    if pc is not None: regs.put(15, pc)
    for k, x in enumerate(data): mem.put((addr + k) & M32, x)
    stub = Clipped(S, regs, mem)
    return stub, tool(S, stub)

def step(e, most):
    def fn(S):
        def short(S, f):
            if e.group == 'block' and not e.name.endswith('-one'): S.assume(R.count(e.a.regs(f)) <= 2)
            return True
        word, f, addr, i = isa.legal(S, e, short)
        S.assume(addr + 4 <= M32 + 1)
        stub, t = machine(S, addr, isa.data_of(word, e.wide), addr | S.bv('low bit', 1))
        amounts(S, e, f, stub.regs, most)
        direct = isa.Stub(S, stub.regs, stub.mem)
        out = lines(command(S, t, S.choice('command', ('s', 'step', 'STEP')) if e.name == 'movs-imm' else 's'))
        S.check(len(out) == 1, 'one line')
        shows(S, out[0], addr, i)
        i.execute(isa.cpu_on(S, direct))
        untouched(S, stub, direct, 'same effect as executing it directly')
    return fn

def bad(kind):
    """Nothing to execute: the state stays."""
    def fn(S):
        data = c15.ITEMS[kind](S)
        addr = S.bv('address', 31) << 1
        S.assume(addr + 4 <= M32 + 1)
        stub, t = machine(S, addr, data, addr | S.bv('low bit', 1))
        before = isa.Stub(S, stub.regs, stub.mem)
        out = lines(command(S, t, 's'))
        S.check(not [l for l in out if l.startswith('0x')], 'no instruction is printed')
        untouched(S, stub, before, 'nothing executed')
    return fn

def last(kind, n):
    """At the end of memory."""
    def fn(S):
        data = c15.ITEMS[kind](S)
        addr = S.bv('address', 31) << 1
        S.assume(addr + 4 <= M32 + 1)
        stub, t = machine(S, addr, data, addr)
        stub.end = addr + n
        direct = isa.Stub(S, stub.regs, stub.mem)
        out = lines(command(S, t, 's'))
        if n >= len(data):
            i, err = isa.decode(S, data, addr)
            S.check(err is None, 'decodes')
            S.check(len(out) == 1, 'one line')
            shows(S, out[0], addr, i)
            i.execute(isa.cpu_on(S, direct))
        else: S.check(not [l for l in out if l.startswith('0x')], 'no instruction is printed')
        untouched(S, stub, direct, 'same effect as executing it directly')
    return fn

def near(S): return isa.data_of(0xf000 | ((0xf800 | S.bv('near', 3)) << 16), True)

ITEMS = dict(c15.ITEMS, bl=near)
KINDS = ('mov', 'str', 'bl', 'mul', 'undef16', 'undef32')
FORMS = ('register', 'number', 'pc', 'default', '-c', '--center')

def listing(n, kinds, forms):
    def fn(S):
        form = S.choice('form', forms)
        if form == 'default':
            # six bytes at the PC
            data = S.choice('items', (('mov', 'bl'), ('bl', 'mov'), ('mov', 'str', 'mov'), ('mov', 'undef32'), ('mov', 'undef16', 'str')))
        else: data = [S.choice('item', kinds) for k in range(n)]
        data = [b for k in data for b in ITEMS[k](S)]
        arg = S.bv('argument', 32)
        back = len(data) // 2 if form.startswith('-') else 0
        S.assume(arg >= back)
        addr = (arg - back) & 0xfffffffe
        S.assume(addr + len(data) <= M32 + 1)
        pc = arg if form in ('pc', 'default') else S.bv('pc', 32)
        stub, t = machine(S, addr, data, pc)
        size = '' if form == 'default' else ' %d' % len(data)
        if form == 'default': line = 'd'
        elif form == 'pc': line = 'd pc' + size
        elif form == 'number': line = 'disasm ' + hex(arg) + size
        else:
            stub.write_register(3, arg)
            line = 'd ' + (form + ' ' if form.startswith('-') else '') + 'r3' + size
        before = isa.Stub(S, stub.regs, stub.mem)
        want, ends = c15.walk(S, bytearray(data), addr)
        out = lines(command(S, t, line))
        got = [l for l in out if l.startswith('0x')]
        S.check(len(got) == len(want), 'as many instructions as there are')
        for l, i in zip(got, want): shows(S, l, i.address, i, (stub.regs.get(15) & 0xfffffffe) == i.address)
        said = bool([l for l in out if l.startswith('Undefined')])
        S.check(said == (ends == ('undefined',)), 'an undefined instruction is reported')
        untouched(S, stub, before, 'disassembling')
    return fn

def scenarios(tier):
    deep = tier == 'thorough'
    out = [Scen('step-' + e.name, step(e, 3 if deep else 1)) for e in R.E]
    for k in ('undef16', 'undef32', 'unpred16', 'unpred32'): out.append(Scen('step-' + k, bad(k)))
    for k in ('mov', 'str', 'bl', 'mul'):
        for n in (2, 3, 4): out.append(Scen('last-%s-%d' % (k, n), last(k, n)))
    for form in FORMS:
        out.append(Scen('list-%s-1' % form, listing(1, KINDS, (form,))))
        if form != 'default': out.append(Scen('list-%s-2' % form, listing(2, KINDS if deep or form[0] != '-' else ('mov', 'mul', 'undef16'), (form,)), order=-1))
        if deep and form != 'default': out.append(Scen('list-%s-3' % form, listing(3, KINDS, (form,)), order=-2))
    if not deep: out.append(Scen('list-register-3', listing(3, ('mul', 'undef16', 'undef32'), ('register',)), order=-2))
    return out
