from sx.scen import Scen
from checks.common import *
from checks import isa
from ref import thumb as R

BOUNDS = {'quick': 'every decodable halfword and 32-bit word at every even address, formatted up to four times with up to '
                   'two other instructions in between; register lists of up to three or at least thirteen registers for '
                   '32-bit encodings',
          'thorough': 'as quick, with every register list'}
OUTSIDE = 'column padding'

def squeeze(s): return ' '.join(s.split())

def judge(S, line, word, e, t):
    """Encoding, mnemonic, operands and comments of a printed line, blanks aside."""
    hw = '%04x' % (word & 0xffff)
    if e.wide: hw = hw + ' %04x' % (word >> 16)
    want = hw + ' ' + t.line()
    if t.comments: want = want + ' ; ' + ' '.join(t.comments)
    S.eq(squeeze(line), want, e.name + ': printed line')

def prints(e, extra):
    def fn(S):
        word, f, addr, i = isa.legal(S, e, extra, True)
        F = S.mod('cmdis.formatter').Formatter
        regs, mem = isa.state(S)
        stub = isa.Stub(S, regs, mem)
        cpu = isa.cpu_on(S, stub)
        fm = F(cpu)
        line = fm.format(i)
        judge(S, line, word, e, e.text(S, f, addr))
        # again, reused after another instruction, and fresh
        S.check(fm.format(i) == line, 'same text the second time')
        other, err = isa.decode(S, bytearray([0xc8, 0x20]), 0x100)      # movs r0, #200
        S.check(err is None, 'movs decodes')
        S.check(squeeze(fm.format(other)) == '20c8 movs r0, #200 ; 0xc8', 'another instruction with the same formatter')
        S.check(fm.format(i) == line, 'same text after another instruction')
        S.check(F(None).format(i) == line, 'same text with a fresh formatter')
        S.check(i.size == e.size, 'size unchanged')
        S.check(i.address == addr, 'address unchanged')
        S.check(S.and_(*[x == y for x, y in zip(i.bytes, isa.data_of(word, e.wide))]), 'bytes unchanged')
        S.same(stub.regs, regs, 'formatting changes no register')
        S.same(stub.mem, mem, 'formatting changes no memory')
    return fn

def scenarios(tier):
    out = []
    for e in R.E:
        lists = e.wide and e.group == 'block' and not e.name.endswith('-one')
        out.append(Scen(e.name, prints(e, isa.few(e, 3, 13) if lists and tier == 'quick' else None),
                        order=-1 if lists else 0))
    return out
