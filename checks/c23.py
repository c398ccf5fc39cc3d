from sx.scen import Scen
from checks.common import *
from checks import isa
from ref import thumb as R

BOUNDS = {'quick': 'every supported encoding with arbitrary fields and address, executed three times on two processors and once '
                   'decoded afresh, with '
                   'arbitrary registers and memory (register shifts: amounts up to one; 32-bit register lists of up to '
                   'two registers); lists of up to three fixed-form instructions with arbitrary fields',
          'thorough': 'as quick, with all shift amounts up to three and lists of up to four instructions'}
OUTSIDE = 'more than three executions of one instruction'

def same_state(S, a, b, what):
    S.same(a.regs, b.regs, what + ': registers')
    S.same(a.mem, b.mem, what + ': memory')

def amounts(e, most):
    """Keeps the number of cases small where an instruction explores them."""
    def cond(S, f, regs):
        if e.name in ('lsls-reg', 'lsrs-reg', 'asrs-reg', 'rors-reg'): return (regs.get(f.m) & 0xff) <= most
        return True
    return cond

def lists(S, e, f):
    if e.group == 'block' and not e.name.endswith('-one'):
        n = R.count(e.a.regs(f))
        S.assume(n <= 2 if e.wide else S.or_(n <= 3, n >= 7))

def again(e, most):
    cond = amounts(e, most)
    def fn(S):
        def limit(S, f):
            lists(S, e, f)
            return True
        word, f, addr, i = isa.legal(S, e, limit)
        F = S.mod('cmdis.formatter').Formatter
        regs, mem = isa.state(S, addr)
        S.assume(cond(S, f, regs))
        def facts():
            S.eq(i.size, e.size, 'size')
            S.eq(i.address, addr, 'address')
            S.check(S.and_(*[p == q for p, q in zip(i.bytes, isa.data_of(word, e.wide))]), 'encoded bytes')
        # first on an arbitrary other state, which may leave something behind
        other_regs, other_mem = isa.state(S, addr)
        S.assume(cond(S, f, other_regs))
        one, two, three = isa.Stub(S, regs, mem), isa.Stub(S, other_regs, other_mem), isa.Stub(S, regs, mem)
        ca, cb = isa.cpu_on(S, one), isa.cpu_on(S, two)
        i.execute(ca)
        facts()
        m = isa.Stub(S, one.regs, one.mem)
        i.execute(cb)
        same_state(S, one, m, 'executing on another processor leaves the first alone')
        k, err = isa.decode(S, isa.data_of(word, e.wide), addr)
        fresh = isa.Stub(S, other_regs, other_mem)
        k.execute(isa.cpu_on(S, fresh))
        same_state(S, two, fresh, 'same effect as an instruction executed for the first time')
        ca.delegate = three
        i.execute(ca)
        same_state(S, three, one, 'same effect the next time')
        facts()
    return fn

def text(e):
    """What is printed does not depend on earlier execution."""
    def fn(S):
        def limit(S, f):
            lists(S, e, f)
            return True
        word, f, addr, i = isa.legal(S, e, limit)
        F = S.mod('cmdis.formatter').Formatter
        regs, mem = isa.state(S, addr)
        S.assume(amounts(e, 1)(S, f, regs))
        i.execute(isa.cpu_on(S, isa.Stub(S, regs, mem)))
        S.eq(isa.body(F(None).format(i), e.wide), e.text(S, f, addr).line(), e.name + ': text after execution')
    return fn

NAMES = ('movs-imm', 'adds-imm8', 'str-imm', 'bl', 'pop')

BY = dict([(e.name, e) for e in R.E])

def sequence(n):
    """A list executed on a processor is its instructions one by one."""
    def fn(S):
        es = [BY[S.choice('instruction', NAMES)] for k in range(n)]
        ins = []
        addr = S.bv('address', 31) << 1
        for e in es:
            word, f = e.put(S)
            if e.name == 'pop': S.assume(f.list == 3)
            i, err = isa.decode(S, isa.data_of(word, e.wide), addr)
            S.check(err is None, e.name + ' decodes')
            ins.append(i)
        regs, mem = isa.state(S, addr)
        one, two = isa.Stub(S, regs, mem), isa.Stub(S, regs, mem)
        ca, cb = isa.cpu_on(S, one), isa.cpu_on(S, two)
        for i in ins: i.execute(ca)
        cb.execute(ins)
        same_state(S, one, two, 'list of %d instructions' % n)
        S.check(len(ins) == n, 'the list is unchanged')
    return fn

def scenarios(tier):
    out = [Scen('list-%d' % n, sequence(n)) for n in range(4 if tier == 'quick' else 5)]
    for e in R.E:
        out.append(Scen('again-' + e.name, again(e, 1 if tier == 'quick' else 3)))
        out.append(Scen('text-' + e.name, text(e)))
    return out
