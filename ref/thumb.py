"""Reference description of the Thumb encodings cmdis supports, written from the
ARMv7-M architecture reference manual: bit patterns, operand restrictions,
assembly text and effect.  Plain Python over integers, used with symbolic and
with concrete values (S.ite selects, S.branch explores).

Outcome of decoding a word that matches an encoding:
  here(S, f)    the encoding applies (otherwise another one does, or none)
  unpred(S, f)  unpredictable, and must be reported so
  loose(S, f)   unpredictable in the architecture, but decoding is accepted too
"""
M32 = 0xffffffff
REG = ('r0', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6', 'r7', 'r8', 'r9', 'r10', 'r11', 'r12', 'sp', 'lr', 'pc')
SP, LR, PC, XPSR, MSP, PSP = 13, 14, 15, 16, 17, 18
CONTROL, FAULTMASK, BASEPRI, PRIMASK = -4 & 0xff, -3 & 0xff, -2 & 0xff, -1 & 0xff
COND = ('eq', 'ne', 'cs', 'cc', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le')

# ------------------------------------------------------------------ encodings

class F(object):
    """Field values."""
    pass

def no(S, f): return False
def yes(S, f): return True

class Enc(object):
    def __init__(self, name, pattern, text, run, group, here=yes, unpred=no, loose=no, skip=no, **attrs):
        self.name = name
        self.text = text
        self.run = run
        self.group = group
        self.here = here
        self.unpred = unpred
        self.loose = loose
        self.skip = skip          # states or operands execution is not claimed for
        self.a = F()
        for k in attrs: setattr(self.a, k, attrs[k])
        halves = pattern.split('|')
        self.wide = len(halves) == 2
        self.size = 4 if self.wide else 2
        self.mask = self.match = 0
        self.fields = []          # (name, lowest bit, width)
        for h, half in enumerate(halves):
            pos = 16 * h + 16
            for tok in half.split():
                if ':' in tok:
                    n, w = tok.split(':')
                    pos -= int(w)
                    self.fields.append((n, pos, int(w)))
                else:
                    pos -= len(tok)
                    self.mask |= ((1 << len(tok)) - 1) << pos
                    self.match |= int(tok, 2) << pos
            assert pos == 16 * h, pattern

    def take(self, word):
        """Fields of a word."""
        f = F()
        f.a = self.a
        f.wide = self.wide
        f.size = self.size
        for n, lo, w in self.fields:
            setattr(f, n, (word >> lo) & ((1 << w) - 1))
        return f

    def put(self, S):
        """(word, fields) with arbitrary field values."""
        word = self.match
        for n, lo, w in self.fields:
            word = word | (S.bv(n, w) << lo)
        return word, self.take(word)

# ------------------------------------------------------------------------ text

class Text(object):
    """Assembly line being put together."""
    def __init__(self, mnemonic):
        self.mn = mnemonic
        self.ops = []
        self.comments = []

    def reg(self, r, suffix=''):
        self.ops.append(REG[r] + suffix)
        return self

    def imm(self, S, v):
        self.ops.append(self.immtext(S, v))
        return self

    def immtext(self, S, v):
        if S.branch(v > 9):
            self.comments.append('0x%x' % v)
        return '#%d' % v

    def label(self, addr, base, off):
        self.comments.append('0x%x' % ((base + off) & M32))
        self.ops.append('.%+d' % (base + off - addr))
        return self

    def line(self):
        """What stands between encoding and comment."""
        return self.mn + ' ' + ', '.join(self.ops) if self.ops else self.mn

def shift_text(S, kind, n):
    return ('LSL #%d', 'LSR #%d', 'ASR #%d', 'ROR #%d', 'RRX #%d')[kind] % n

def list_text(S, bits):
    """Register list, with ranges."""
    out = []
    n = 0
    while n < 16:
        if not S.branch((bits >> n) & 1 == 1):
            n += 1
            continue
        last = n
        while last < 15 and S.branch((bits >> (last + 1)) & 1 == 1): last += 1
        out.append(REG[n] if last == n else REG[n] + '-' + REG[last])
        n = last + 1
    return '{' + ','.join(out) + '}'

# ---------------------------------------------------------------- architecture

def count(bits, n=16):
    c = 0
    for k in range(n): c = c + ((bits >> k) & 1)
    return c

def expand(S, imm):
    """Modified immediate: (constant, carry is changed, carry)."""
    b = imm & 0xff
    mode = (imm >> 8) & 3
    rep = S.ite(mode == 0, b, S.ite(mode == 1, b | (b << 16), S.ite(mode == 2, (b << 8) | (b << 24),
                b | (b << 8) | (b << 16) | (b << 24))))
    rot = imm >> 7
    u = (imm & 0x7f) | 0x80
    r = 0
    for k in range(8, 32):
        r = S.ite(rot == k, ((u >> k) | (u << (32 - k))) & M32, r)
    plain = (imm >> 10) == 0
    return S.ite(plain, rep, r), S.not_(plain), r >> 31

def expand_loose(S, imm):
    """A repeated zero byte is unpredictable."""
    return S.and_((imm >> 10) == 0, ((imm >> 8) & 3) != 0, (imm & 0xff) == 0)

def immshift(S, kind, n):
    """Decoded shift: (0 LSL 1 LSR 2 ASR 3 ROR 4 RRX, amount)."""
    if S.branch(kind == 0): return 0, n
    if S.branch(kind == 1): return 1, S.ite(n == 0, 32, n)
    if S.branch(kind == 2): return 2, S.ite(n == 0, 32, n)
    if S.branch(n == 0): return 4, 1
    return 3, n

def shift_c(S, kind, v, n, c):
    """Shift of a word by n, explored value by value; (result, carry)."""
    n = S.concrete(n)
    if kind == 4:
        return (c << 31) | (v >> 1), v & 1
    if n == 0:
        return v, c
    if kind == 0:
        if n > 32: return 0, 0
        return (v << n) & M32, (v >> (32 - n)) & 1
    if kind == 1:
        if n > 32: return 0, 0
        return v >> n, (v >> (n - 1)) & 1
    if kind == 2:
        s = v >> 31
        if n >= 32: return s * M32, s
        return (v >> n) | ((s * M32) << (32 - n) & M32), (v >> (n - 1)) & 1
    k = n & 31
    r = ((v >> k) | (v << (32 - k))) & M32
    return r, r >> 31

def addc(S, x, y, c):
    """Sum, carry out, overflow."""
    s = x + y + c
    r = s & M32
    return r, s >> 32, (((x ^ r) & (y ^ r)) >> 31) & 1

def inv(x): return x ^ M32

def holds(S, cond, x):
    """Condition over the status register."""
    n, z, c, v = x >> 31, (x >> 30) & 1, (x >> 29) & 1, (x >> 28) & 1
    base = S.ite((cond >> 1) == 0, z == 1, S.ite((cond >> 1) == 1, c == 1, S.ite((cond >> 1) == 2, n == 1,
           S.ite((cond >> 1) == 3, v == 1, S.ite((cond >> 1) == 4, S.and_(c == 1, z == 0),
           S.ite((cond >> 1) == 5, n == v, S.and_(n == v, z == 0)))))))
    return S.ite((cond & 1) == 1, S.not_(base), base)

class State(object):
    """Processor state; reads see the state before, writes go to a copy."""
    def __init__(self, S, regs, mem):
        self.S = S
        self.old, self.oldmem = regs, mem
        self.regs, self.mem = regs.copy(), mem.copy()
        self.reads = []           # (address, size in bits)
        self.alt = False          # a loaded PC may also have its lowest bit cleared

    def r(self, i): return self.old.get(i)
    def w(self, i, v): self.regs.put(i, v)
    @property
    def pc(self): return self.old.get(PC)

    def flag(self, bit): return (self.old.get(XPSR) >> bit) & 1
    @property
    def c(self): return self.flag(29)

    def flags(self, res, c=None, v=None):
        x = self.regs.get(XPSR)
        m = 0xc0000000 | (0x20000000 if c is not None else 0) | (0x10000000 if v is not None else 0)
        new = ((res >> 31) << 31) | self.S.ite(res == 0, 1 << 30, 0)
        if c is not None: new = new | (c << 29)
        if v is not None: new = new | (v << 28)
        self.regs.put(XPSR, (x & (M32 ^ m)) | new)

    def load(self, a, size):
        """Little-endian value at address a."""
        a = a & M32
        self.reads.append((a, size))
        v = 0
        for k in range(size // 8): v = v | (self.oldmem.get((a + k) & M32) << (8 * k))
        return v

    def store(self, a, v, size):
        a = a & M32
        for k in range(size // 8): self.mem.put((a + k) & M32, (v >> (8 * k)) & 0xff)

    def next(self, f): self.w(PC, (self.pc + f.size) & M32)

# ------------------------------------------------------------- text and effects

def is13or15(S, *rs):
    return S.or_(*[S.or_(r == 13, r == 15) for r in rs])

def any15(S, *rs):
    return S.or_(*[r == 15 for r in rs])

E = []
def enc(*a, **k): E.append(Enc(*a, **k))

# --- data processing on two low registers

def t_dm(S, f, addr): return Text(f.a.mn).reg(f.d).reg(f.m)

def x_logic(S, f, M):
    r = f.a.op(M.r(f.d), M.r(f.m))
    M.next(f); M.w(f.d, r); M.flags(r)

def op_and(x, y): return x & y
def op_or(x, y): return x | y
def op_xor(x, y): return x ^ y
def op_bic(x, y): return x & (y ^ M32)

enc('ands', '010000 0000 m:3 d:3', t_dm, x_logic, 'logic', mn='ands', op=op_and)
enc('eors', '010000 0001 m:3 d:3', t_dm, x_logic, 'logic', mn='eors', op=op_xor)
enc('orrs', '010000 1100 m:3 d:3', t_dm, x_logic, 'logic', mn='orrs', op=op_or)
enc('bics', '010000 1110 m:3 d:3', t_dm, x_logic, 'logic', mn='bics', op=op_bic)

def x_shiftreg(S, f, M):
    r, c = shift_c(S, f.a.kind, M.r(f.d), M.r(f.m) & 0xff, M.c)
    M.next(f); M.w(f.d, r); M.flags(r, c)

enc('lsls-reg', '010000 0010 m:3 d:3', t_dm, x_shiftreg, 'logic', mn='lsls', kind=0)
enc('lsrs-reg', '010000 0011 m:3 d:3', t_dm, x_shiftreg, 'logic', mn='lsrs', kind=1)
enc('asrs-reg', '010000 0100 m:3 d:3', t_dm, x_shiftreg, 'logic', mn='asrs', kind=2)
enc('rors-reg', '010000 0111 m:3 d:3', t_dm, x_shiftreg, 'logic', mn='rors', kind=3)

def x_adc(S, f, M):
    r, c, v = addc(S, M.r(f.d), M.r(f.m), M.c)
    M.next(f); M.w(f.d, r); M.flags(r, c, v)

def x_sbc(S, f, M):
    r, c, v = addc(S, M.r(f.d), inv(M.r(f.m)), M.c)
    M.next(f); M.w(f.d, r); M.flags(r, c, v)

enc('adcs', '010000 0101 m:3 d:3', t_dm, x_adc, 'add', mn='adcs')
enc('sbcs', '010000 0110 m:3 d:3', t_dm, x_sbc, 'add', mn='sbcs')

def t_tst(S, f, addr): return Text(f.a.mn).reg(f.n).reg(f.m)

def x_tst(S, f, M):
    M.next(f); M.flags(M.r(f.n) & M.r(f.m))

def x_cmp(S, f, M):
    r, c, v = addc(S, M.r(f.n), inv(M.r(f.m)), 1)
    M.next(f); M.flags(r, c, v)

def x_cmn(S, f, M):
    r, c, v = addc(S, M.r(f.n), M.r(f.m), 0)
    M.next(f); M.flags(r, c, v)

enc('tst', '010000 1000 m:3 n:3', t_tst, x_tst, 'logic', mn='tst')
enc('cmp-reg', '010000 1010 m:3 n:3', t_tst, x_cmp, 'add', mn='cmp')
enc('cmn-reg', '010000 1011 m:3 n:3', t_tst, x_cmn, 'add', mn='cmn')

def cmp_high(f):
    return (f.N << 3) | f.n

enc('cmp-high', '010001 01 N:1 m:4 n:3',
    lambda S, f, addr: Text('cmp').reg(cmp_high(f)).reg(f.m),
    lambda S, f, M: x_cmp(S, renamed(f, n=cmp_high(f)), M), 'add',
    loose=lambda S, f: S.or_(S.and_(f.N == 0, f.m < 8), any15(S, cmp_high(f), f.m)),
    skip=lambda S, f: any15(S, cmp_high(f), f.m))

def renamed(f, **kw):
    g = F()
    g.a, g.wide, g.size = f.a, f.wide, f.size
    for k in kw: setattr(g, k, kw[k])
    for k in ('d', 'n', 'm'):
        if k not in kw and hasattr(f, k): setattr(g, k, getattr(f, k))
    return g

def t_rsbs(S, f, addr): return Text('rsbs').reg(f.d).reg(f.n).imm(S, 0)

def x_rsbs(S, f, M):
    r, c, v = addc(S, inv(M.r(f.n)), 0, 1)
    M.next(f); M.w(f.d, r); M.flags(r, c, v)

enc('rsbs', '010000 1001 n:3 d:3', t_rsbs, x_rsbs, 'add')

def t_muls(S, f, addr): return Text('muls').reg(f.d).reg(f.n).reg(f.d)

def x_muls(S, f, M):
    r = (M.r(f.n) * M.r(f.d)) & M32
    M.next(f); M.w(f.d, r); M.flags(r)

enc('muls', '010000 1101 n:3 d:3', t_muls, x_muls, 'misc')

def x_mvns(S, f, M):
    r = inv(M.r(f.m))
    M.next(f); M.w(f.d, r); M.flags(r)

enc('mvns', '010000 1111 m:3 d:3', t_dm, x_mvns, 'logic', mn='mvns')

# --- add and subtract

def t_dni(S, f, addr): return Text(f.a.mn).reg(f.d).reg(f.n).imm(S, f.imm)
def t_di(S, f, addr): return Text(f.a.mn).reg(f.d).imm(S, f.imm)
def t_dnm(S, f, addr): return Text(f.a.mn).reg(f.d).reg(f.n).reg(f.m)

def addsub(S, f, M, n, y, sub, d):
    r, c, v = addc(S, M.r(n), inv(y) if sub else y, 1 if sub else 0)
    M.next(f); M.w(d, r); M.flags(r, c, v)

for mn, b, sub in (('adds', '0', False), ('subs', '1', True)):
    enc(mn + '-imm3', '00011 1 %s imm:3 n:3 d:3' % b, t_dni,
        lambda S, f, M: addsub(S, f, M, f.n, f.imm, f.a.sub, f.d), 'add', mn=mn, sub=sub)
    enc(mn + '-imm8', '001 1%s d:3 imm:8' % b, t_di,
        lambda S, f, M: addsub(S, f, M, f.d, f.imm, f.a.sub, f.d), 'add', mn=mn, sub=sub)
    enc(mn + '-reg', '00011 0 %s m:3 n:3 d:3' % b, t_dnm,
        lambda S, f, M: addsub(S, f, M, f.n, M.r(f.m), f.a.sub, f.d), 'add', mn=mn, sub=sub)

def add_dn(f): return (f.DN << 3) | f.d

def t_add_high(S, f, addr):
    d = add_dn(f)
    t = Text('add').reg(d)
    # ADD (SP plus register) names the stack pointer
    if S.branch(f.m == 13): return t.reg(13).reg(d)
    return t.reg(f.m)

def x_add_high(S, f, M):
    d = add_dn(f)
    M.next(f); M.w(d, (M.r(d) + M.r(f.m)) & M32)

enc('add-high', '010001 00 DN:1 m:4 d:3', t_add_high, x_add_high, 'add',
    loose=lambda S, f: S.and_(add_dn(f) == 15, f.m == 15),
    skip=lambda S, f: any15(S, add_dn(f), f.m))

enc('add-sp-imm', '1010 1 d:3 imm:8',
    lambda S, f, addr: Text('add').reg(f.d).reg(13).imm(S, f.imm * 4),
    lambda S, f, M: (M.next(f), M.w(f.d, (M.r(13) + f.imm * 4) & M32)), 'add')
enc('add-sp-sp', '1011 0000 0 imm:7',
    lambda S, f, addr: Text('add').reg(13).imm(S, f.imm * 4),
    lambda S, f, M: (M.next(f), M.w(13, (M.r(13) + f.imm * 4) & M32)), 'add')
enc('sub-sp-sp', '1011 0000 1 imm:7',
    lambda S, f, addr: Text('sub').reg(13).imm(S, f.imm * 4),
    lambda S, f, M: (M.next(f), M.w(13, (M.r(13) - f.imm * 4) & M32)), 'add')

def rsbw_imm(f): return (f.i << 11) | (f.imm3 << 8) | f.imm8

def t_rsbw(S, f, addr):
    t = Text('rsbs.w' if S.branch(f.S == 1) else 'rsb.w')
    return t.reg(f.d).reg(f.n).imm(S, expand(S, rsbw_imm(f))[0])

def x_rsbw(S, f, M):
    r, c, v = addc(S, inv(M.r(f.n)), expand(S, rsbw_imm(f))[0], 1)
    M.next(f); M.w(f.d, r)
    if S.branch(f.S == 1): M.flags(r, c, v)

enc('rsb.w', '11110 i:1 0 1110 S:1 n:4 | 0 imm3:3 d:4 imm8:8', t_rsbw, x_rsbw, 'add',
    unpred=lambda S, f: is13or15(S, f.d, f.n), loose=lambda S, f: expand_loose(S, rsbw_imm(f)))

def t_cmpi(S, f, addr): return Text('cmp').reg(f.n).imm(S, f.imm)

def x_cmpi(S, f, M):
    r, c, v = addc(S, M.r(f.n), inv(f.imm), 1)
    M.next(f); M.flags(r, c, v)

enc('cmp-imm', '001 01 n:3 imm:8', t_cmpi, x_cmpi, 'add')

def t_cmpw(S, f, addr): return Text(f.a.mn).reg(f.n).imm(S, expand(S, rsbw_imm(f))[0])

def x_cmpw(S, f, M):
    k = expand(S, rsbw_imm(f))[0]
    r, c, v = addc(S, M.r(f.n), inv(k) if f.a.sub else k, 1 if f.a.sub else 0)
    M.next(f); M.flags(r, c, v)

for mn, bits, sub in (('cmp.w', '1101', True), ('cmn', '1000', False)):
    enc(mn + '-imm', '11110 i:1 0 %s 1 n:4 | 0 imm3:3 1111 imm8:8' % bits, t_cmpw, x_cmpw, 'add', mn=mn, sub=sub,
        loose=lambda S, f: S.or_(f.n == 15, expand_loose(S, rsbw_imm(f))), skip=lambda S, f: f.n == 15)

# --- shifts by immediate, moves, tests

def t_shiftimm(S, f, addr):
    t = Text(f.a.mn).reg(f.d).reg(f.m)
    return t.imm(S, immshift(S, f.a.kind, f.imm)[1])

def x_shiftimm(S, f, M):
    kind, n = immshift(S, f.a.kind, f.imm)
    r, c = shift_c(S, kind, M.r(f.m), n, M.c)
    M.next(f); M.w(f.d, r); M.flags(r, c)

enc('lsls-imm', '000 00 imm:5 m:3 d:3', t_shiftimm, x_shiftimm, 'logic', mn='lsls', kind=0,
    here=lambda S, f: f.imm != 0)
enc('lsrs-imm', '000 01 imm:5 m:3 d:3', t_shiftimm, x_shiftimm, 'logic', mn='lsrs', kind=1)
enc('asrs-imm', '000 10 imm:5 m:3 d:3', t_shiftimm, x_shiftimm, 'logic', mn='asrs', kind=2)

def x_movs(S, f, M):
    r = M.r(f.m)
    M.next(f); M.w(f.d, r); M.flags(r)

enc('movs-reg', '000 00 00000 m:3 d:3', t_dm, x_movs, 'logic', mn='movs')

def mov_d(f): return (f.D << 3) | f.d

def x_mov(S, f, M):
    d = mov_d(f)
    r = M.r(f.m)
    if S.branch(d == 15):
        M.w(PC, r & (M32 - 1))
    else:
        M.next(f); M.w(d, r)

enc('mov-reg', '010001 10 D:1 m:4 d:3', lambda S, f, addr: Text('mov').reg(mov_d(f)).reg(f.m), x_mov, 'logic',
    skip=lambda S, f: f.m == 15)

def x_movi(S, f, M):
    M.next(f); M.w(f.d, f.imm); M.flags(f.imm)

enc('movs-imm', '001 00 d:3 imm:8', lambda S, f, addr: Text('movs').reg(f.d).imm(S, f.imm), x_movi, 'logic')

def sw(S, f, mn): return mn + 's.w' if S.branch(f.S == 1) else mn + '.w'

def x_movw_reg(S, f, M):
    r = M.r(f.m)
    M.next(f); M.w(f.d, r)
    if S.branch(f.S == 1): M.flags(r)

enc('mov.w-reg', '11101 01 0010 S:1 1111 | 0 000 d:4 0000 m:4',
    lambda S, f, addr: Text(sw(S, f, 'mov')).reg(f.d).reg(f.m), x_movw_reg, 'logic',
    loose=lambda S, f: is13or15(S, f.d, f.m), skip=lambda S, f: S.or_(f.d == 15, f.m == 15))

def x_movw_imm(S, f, M):
    k, changed, c = expand(S, rsbw_imm(f))
    M.next(f); M.w(f.d, k)
    if S.branch(f.S == 1): M.flags(k, S.ite(changed, c, M.c))

enc('mov.w-imm', '11110 i:1 0 0010 S:1 1111 | 0 imm3:3 d:4 imm8:8',
    lambda S, f, addr: Text(sw(S, f, 'mov')).reg(f.d).imm(S, expand(S, rsbw_imm(f))[0]), x_movw_imm, 'logic',
    loose=lambda S, f: S.or_(is13or15(S, f.d), expand_loose(S, rsbw_imm(f))), skip=lambda S, f: f.d == 15)

def movw_imm(f): return (f.imm4 << 12) | (f.i << 11) | (f.imm3 << 8) | f.imm8

enc('movw', '11110 i:1 10 0100 imm4:4 | 0 imm3:3 d:4 imm8:8',
    lambda S, f, addr: Text('movw').reg(f.d).imm(S, movw_imm(f)),
    lambda S, f, M: (M.next(f), M.w(f.d, movw_imm(f))), 'logic',
    loose=lambda S, f: is13or15(S, f.d), skip=lambda S, f: f.d == 15)

def wide_shift(S, f): return immshift(S, f.type, (f.imm3 << 2) | f.imm2)

def t_mvnw(S, f, addr):
    t = Text(sw(S, f, 'mvn')).reg(f.d).reg(f.m)
    t.ops.append(shift_text(S, *wide_shift(S, f)))
    return t

def x_mvnw(S, f, M):
    kind, n = wide_shift(S, f)
    s, c = shift_c(S, kind, M.r(f.m), n, M.c)
    M.next(f); M.w(f.d, inv(s))
    if S.branch(f.S == 1): M.flags(inv(s), c)

enc('mvn.w', '11101 01 0011 S:1 1111 | 0 imm3:3 d:4 imm2:2 type:2 m:4', t_mvnw, x_mvnw, 'logic',
    loose=lambda S, f: is13or15(S, f.d, f.m), skip=lambda S, f: any15(S, f.d, f.m))

def t_tstw(S, f, addr):
    t = Text('tst.w').reg(f.n).reg(f.m)
    kind, n = wide_shift(S, f)
    if S.branch(n != 0): t.ops.append(shift_text(S, kind, n))
    return t

def x_tstw(S, f, M):
    kind, n = wide_shift(S, f)
    s, c = shift_c(S, kind, M.r(f.m), n, M.c)
    M.next(f); M.flags(M.r(f.n) & s, c)

enc('tst.w', '11101 01 0000 1 n:4 | 0 imm3:3 1111 imm2:2 type:2 m:4', t_tstw, x_tstw, 'logic',
    unpred=lambda S, f: is13or15(S, f.n, f.m))

# --- multiply, extend, reverse, address

def x_mul(S, f, M):
    M.next(f); M.w(f.d, (M.r(f.n) * M.r(f.m)) & M32)

enc('mul', '11111 0110 000 n:4 | 1111 d:4 0000 m:4', t_dnm, x_mul, 'misc', mn='mul',
    unpred=lambda S, f: is13or15(S, f.d, f.n, f.m))

def x_extend(S, f, M):
    v = M.r(f.m)
    if hasattr(f, 'rot'): v = S.ite(f.rot == 0, v, S.ite(f.rot == 1, (v >> 8) | (v << 24) & M32,
                              S.ite(f.rot == 2, (v >> 16) | (v << 16) & M32, (v >> 24) | (v << 8) & M32)))
    w = f.a.bits
    v = v & ((1 << w) - 1)
    if f.a.sign: v = v | ((v >> (w - 1)) * (M32 ^ ((1 << w) - 1)))
    M.next(f); M.w(f.d, v)

def t_extendw(S, f, addr):
    t = Text(f.a.mn).reg(f.d).reg(f.m)
    if S.branch(f.rot != 0): t.ops.append('ROR #%d' % (f.rot * 8))
    return t

for mn, b, bw, w, sg in (('sxth', '00', '000', 16, True), ('sxtb', '01', '100', 8, True),
                         ('uxth', '10', '001', 16, False), ('uxtb', '11', '101', 8, False)):
    enc(mn, '1011 0010 %s m:3 d:3' % b, t_dm, x_extend, 'misc', mn=mn, bits=w, sign=sg)
    enc(mn + '.w', '11111 010 0 %s 1111 | 1111 d:4 10 rot:2 m:4' % bw, t_extendw, x_extend, 'misc', mn=mn + '.w',
        bits=w, sign=sg, loose=lambda S, f: is13or15(S, f.d, f.m), skip=lambda S, f: any15(S, f.d, f.m))

def x_rev(S, f, M):
    m = M.r(f.m)
    b = [(m >> (8 * k)) & 0xff for k in range(4)]
    if f.a.kind == 'rev': r = b[3] | (b[2] << 8) | (b[1] << 16) | (b[0] << 24)
    elif f.a.kind == 'rev16': r = b[1] | (b[0] << 8) | (b[3] << 16) | (b[2] << 24)
    else: r = b[1] | (b[0] << 8) | ((b[0] >> 7) * 0xffff0000)
    M.next(f); M.w(f.d, r)

for mn, b, bw in (('rev', '00', '000'), ('rev16', '01', '001'), ('revsh', '11', '011')):
    enc(mn, '1011 1010 %s m:3 d:3' % b, t_dm, x_rev, 'misc', mn=mn, kind=mn)
    enc(mn + '.w', '11111 010 1 001 m2:4 | 1111 d:4 1 %s m:4' % bw, t_dm, x_rev, 'misc', mn=mn + '.w', kind=mn,
        unpred=lambda S, f: f.m != f.m2, loose=lambda S, f: is13or15(S, f.d, f.m),
        skip=lambda S, f: any15(S, f.d, f.m))

def base4(addr): return ((addr + 4) >> 2) << 2

def t_adr(S, f, addr): return Text('adr').reg(f.d).label(addr, base4(addr), f.imm * 4)

enc('adr', '1010 0 d:3 imm:8', t_adr,
    lambda S, f, M: (M.next(f), M.w(f.d, (base4(M.pc) + f.imm * 4) & M32)), 'misc')

for nm, b, sg in (('sub', '10101', -1), ('add', '10000', 1)):
    enc('adr.w-' + nm, '11110 i:1 %s 0 1111 | 0 imm3:3 d:4 imm8:8' % b,
        lambda S, f, addr: Text('adr.w').reg(f.d).label(addr, base4(addr), f.a.sg * rsbw_imm(f)),
        lambda S, f, M: (M.next(f), M.w(f.d, (base4(M.pc) + f.a.sg * rsbw_imm(f)) & M32)), 'misc', sg=sg,
        loose=lambda S, f: is13or15(S, f.d), skip=lambda S, f: f.d == 15)

# --- branches

def signed(v, w): return v - (((v >> (w - 1)) & 1) << w)

def x_b(S, f, M):
    M.w(PC, (M.pc + 4 + f.a.off(f)) & M32)

def x_bcond(S, f, M):
    if S.branch(holds(S, f.cond, M.r(XPSR))): x_b(S, f, M)
    else: M.next(f)

def off8(f): return signed(f.imm, 8) * 2
def off11(f): return signed(f.imm, 11) * 2
def off_bl(f):
    i1 = 1 - (f.J1 ^ f.s)
    i2 = 1 - (f.J2 ^ f.s)
    return signed((f.s << 23) | (i1 << 22) | (i2 << 21) | (f.imm10 << 11) | f.imm11, 24) * 2

def t_branch(S, f, addr):
    mn = 'b' + COND[f.cond] if hasattr(f, 'cond') else f.a.mn
    return Text(mn).label(addr, addr + 4, f.a.off(f))

enc('bcond', '1101 cond:4 imm:8', t_branch, x_bcond, 'branch', off=off8, here=lambda S, f: f.cond < 14)
enc('b', '11100 imm:11', t_branch, x_b, 'branch', off=off11, mn='b')

def x_bl(S, f, M):
    x_b(S, f, M)
    M.w(LR, (M.pc + 4) & M32 | 1)

enc('bl', '11110 s:1 imm10:10 | 11 J1:1 1 J2:1 imm11:11', t_branch, x_bl, 'branch', off=off_bl, mn='bl')

def x_bx(S, f, M):
    M.w(PC, M.r(f.m) & (M32 - 1))
    if f.a.link: M.w(LR, (M.pc + 2) & M32 | 1)

enc('bx', '010001 11 0 m:4 000', lambda S, f, addr: Text('bx').reg(f.m), x_bx, 'branch', link=False,
    skip=lambda S, f: f.m == 15)
enc('blx', '010001 11 1 m:4 000', lambda S, f, addr: Text('blx').reg(f.m), x_bx, 'branch', link=True,
    loose=lambda S, f: f.m == 15, skip=lambda S, f: f.m == 15)

# --- single loads and stores

def extended(v, size, sign):
    if sign: v = v | ((v >> (size - 1)) * (M32 ^ ((1 << size) - 1)))
    return v

def access(S, f, M, address):
    size = f.a.size
    if f.a.load:
        v = extended(M.load(address, size), size, f.a.sign)
        if f.wide and S.branch(f.t == 15):
            M.w(PC, v); M.alt = True
        else:
            M.next(f); M.w(f.t, v)
    else:
        M.next(f)
        M.store(address, M.r(f.t), size)

def t_ls(S, f, rest, shown=()):
    t = Text(f.a.mn).reg(f.t)
    t.ops.append('[' + ', '.join([rest] + list(shown)) + ']')
    return t

def t_ls_reg(S, f, addr):
    sh = ['LSL #%d' % f.sh] if hasattr(f, 'sh') else []
    return t_ls(S, f, REG[f.n] + ', ' + REG[f.m], sh)

def x_ls_reg(S, f, M):
    off = M.r(f.m)
    if hasattr(f, 'sh'):
        off = S.ite(f.sh == 0, off, S.ite(f.sh == 1, off << 1, S.ite(f.sh == 2, off << 2, off << 3)))
    access(S, f, M, M.r(f.n) + off)

SIZES = {'b': 8, 'h': 16, '': 32, 'sb': 8, 'sh': 16}

for b, mn in enumerate(('str', 'strh', 'strb', 'ldrsb', 'ldr', 'ldrh', 'ldrb', 'ldrsh')):
    enc(mn + '-reg', '0101 %s m:3 n:3 t:3' % format(b, '03b'), t_ls_reg, x_ls_reg, 'mem', mn=mn,
        load=mn[0] == 'l', size=SIZES[mn[3:]], sign=mn[3:4] == 's')

def shown_imm(S, f, t, v):
    """Immediate offset, left out when zero."""
    if S.branch(v == 0): return []
    return [t.immtext(S, v)]

def t_ls_imm(S, f, addr):
    t = Text(f.a.mn).reg(f.t)
    v = f.imm * f.a.scale
    n = f.n if hasattr(f, 'n') else 13
    t.ops.append('[' + ', '.join([REG[n]] + shown_imm(S, f, t, v)) + ']')
    return t

def x_ls_imm(S, f, M):
    access(S, f, M, M.r(f.n if hasattr(f, 'n') else 13) + f.imm * f.a.scale)

for b, mn in (('011 0 0', 'str'), ('011 0 1', 'ldr'), ('011 1 0', 'strb'), ('011 1 1', 'ldrb'),
              ('100 0 0', 'strh'), ('100 0 1', 'ldrh')):
    enc(mn + '-imm', b + ' imm:5 n:3 t:3', t_ls_imm, x_ls_imm, 'mem', mn=mn, load=mn[0] == 'l',
        size=SIZES[mn[3:]], sign=False, scale=SIZES[mn[3:]] // 8)

for b, mn in (('0', 'str'), ('1', 'ldr')):
    enc(mn + '-sp', '1001 %s t:3 imm:8' % b, t_ls_imm, x_ls_imm, 'mem', mn=mn, load=mn[0] == 'l', size=32,
        sign=False, scale=4)

def t_literal(S, f, addr):
    t = Text('ldr').reg(f.t)
    t.ops.append('[pc, ' + t.immtext(S, f.imm * 4) + ']')
    return t

enc('ldr-literal', '01001 t:3 imm:8', t_literal,
    lambda S, f, M: access(S, f, M, base4(M.pc) + f.imm * 4), 'mem', load=True, size=32, sign=False)

def t_literalw(S, f, addr):
    t = Text(f.a.mn).reg(f.t)
    v = S.ite(f.U == 1, f.imm, -f.imm)
    t.ops.append('[' + ', '.join(['pc'] + shown_imm(S, f, t, v)) + ']')
    return t

def x_literalw(S, f, M):
    access(S, f, M, base4(M.pc) + S.ite(f.U == 1, f.imm, -f.imm))

for mn, sg, b in (('ldrb', '0', '00'), ('ldrh', '0', '01'), ('ldr', '0', '10'), ('ldrsb', '1', '00'),
                  ('ldrsh', '1', '01'), ('strb', '0', '00'), ('strh', '0', '01'), ('str', '0', '10')):
    ld = mn[0] == 'l'
    size = SIZES[mn[3:]]
    enc(mn + '.w-reg', '11111 00 %s 0 %s %s n:4 | t:4 0 00000 sh:2 m:4' % (sg, b, '1' if ld else '0'),
        t_ls_reg, x_ls_reg, 'mem', mn=mn + '.w', load=ld, size=size, sign=sg == '1',
        here=(lambda S, f: S.and_(f.n != 15, f.t != 15)) if ld and size != 32 else (lambda S, f: f.n != 15),
        loose=(lambda S, f: S.or_(is13or15(S, f.m), f.t == 13)) if ld and size != 32 else
              (lambda S, f: is13or15(S, f.m)) if ld else
              (lambda S, f: S.or_(is13or15(S, f.m), f.t == 15)) if size == 32 else
              (lambda S, f: is13or15(S, f.m, f.t)),
        skip=(lambda S, f: f.m == 15) if ld else (lambda S, f: any15(S, f.m, f.t)))
    if ld:
        enc(mn + '.w-literal', '11111 00 %s U:1 %s 1 1111 | t:4 imm:12' % (sg, b), t_literalw, x_literalw, 'mem',
            mn=mn + '.w', load=True, size=size, sign=sg == '1', here=lambda S, f: f.t != 15,
            loose=no if size == 32 else (lambda S, f: f.t == 13))

# --- block transfers

def t_list(S, f, addr):
    t = Text(f.a.mn)
    t.ops.append(list_text(S, f.a.regs(f)))
    return t

def x_push(S, f, M):
    bits = f.a.regs(f)
    a = (M.r(13) - 4 * count(bits)) & M32
    M.next(f); M.w(13, a)
    for k in range(15):
        if S.branch((bits >> k) & 1 == 1):
            M.store(a, M.r(k), 32)
            a = a + 4

def x_pop(S, f, M):
    bits = f.a.regs(f)
    a = M.r(13)
    M.next(f); M.w(13, (a + 4 * count(bits)) & M32)
    loadlist(S, f, M, bits, a)

def loadlist(S, f, M, bits, a):
    for k in range(16):
        if S.branch((bits >> k) & 1 == 1):
            M.w(k, M.load(a, 32))
            if k == 15: M.alt = True
            a = a + 4

def r_push(f): return (f.M << 14) | f.list
def r_one(f): return 1 << f.t
def r_pop(f): return (f.P << 15) | f.list
def r_popw(f): return (f.P << 15) | (f.M << 14) | f.list

enc('push', '1011 0 10 M:1 list:8', t_list, x_push, 'block', mn='push', regs=r_push,
    unpred=lambda S, f: r_push(f) == 0)
enc('push.w', '11101 00 100 1 0 1101 | 0 M:1 0 list:13', t_list, x_push, 'block', mn='push.w', regs=r_push,
    unpred=lambda S, f: r_push(f) == 0, loose=lambda S, f: count(r_push(f)) < 2)
enc('push.w-one', '11111 00 0 0 10 0 1101 | t:4 1 101 00000100', t_list, x_push, 'block', mn='push.w', regs=r_one,
    unpred=lambda S, f: is13or15(S, f.t))
enc('pop', '1011 1 10 P:1 list:8', t_list, x_pop, 'block', mn='pop', regs=r_pop,
    unpred=lambda S, f: r_pop(f) == 0)
enc('pop.w', '11101 00 010 1 1 1101 | P:1 M:1 0 list:13', t_list, x_pop, 'block', mn='pop.w', regs=r_popw,
    unpred=lambda S, f: S.or_(count(r_popw(f)) < 2, S.and_(f.P == 1, f.M == 1)))
enc('pop.w-one', '11111 00 0 0 10 1 1101 | t:4 1 011 00000100', t_list, x_pop, 'block', mn='pop.w', regs=r_one,
    loose=lambda S, f: f.t == 13, skip=lambda S, f: f.t == 13)

def t_multi(S, f, addr):
    t = Text(f.a.mn).reg(f.n, '!' if S.branch(f.a.wback(f)) else '')
    t.ops.append(list_text(S, f.a.regs(f)))
    return t

def x_stm(S, f, M):
    bits = f.a.regs(f)
    a = M.r(f.n)
    M.next(f)
    if S.branch(f.a.wback(f)): M.w(f.n, (a + 4 * count(bits)) & M32)
    for k in range(15):
        if S.branch((bits >> k) & 1 == 1):
            M.store(a, M.r(k), 32)
            a = a + 4

def x_ldm(S, f, M):
    bits = f.a.regs(f)
    a = M.r(f.n)
    M.next(f)
    if S.branch(f.a.wback(f)): M.w(f.n, (a + 4 * count(bits)) & M32)
    loadlist(S, f, M, bits, a)

def r_plain(f): return f.list
def inlist(f): return (f.a.regs(f) >> f.n) & 1
def below(f): return f.a.regs(f) & ((1 << f.n) - 1)

enc('stm', '1100 0 n:3 list:8', t_multi, x_stm, 'block', mn='stm', regs=r_plain, wback=lambda f: True,
    unpred=lambda S, f: f.list == 0,
    # the stored base is unknown when it is listed but not first
    skip=lambda S, f: S.and_(inlist(f) == 1, below(f) != 0))
enc('ldm', '1100 1 n:3 list:8', t_multi, x_ldm, 'block', mn='ldm', regs=r_plain,
    wback=lambda f: inlist(f) == 0, unpred=lambda S, f: f.list == 0)
enc('stm.w', '11101 00 010 W:1 0 n:4 | 0 M:1 0 list:13', t_multi, x_stm, 'block', mn='stm.w', regs=r_push,
    wback=lambda f: f.W == 1,
    unpred=lambda S, f: S.or_(f.n == 15, count(r_push(f)) < 2, S.and_(f.W == 1, inlist(f) == 1)))
enc('ldm.w', '11101 00 010 W:1 1 n:4 | P:1 M:1 0 list:13', t_multi, x_ldm, 'block', mn='ldm.w', regs=r_popw,
    wback=lambda f: f.W == 1, here=lambda S, f: S.not_(S.and_(f.W == 1, f.n == 13)),
    unpred=lambda S, f: S.or_(f.n == 15, count(r_popw(f)) < 2, S.and_(f.P == 1, f.M == 1),
                              S.and_(f.W == 1, inlist(f) == 1)))

# --- system

def x_next(S, f, M): M.next(f)

def t_cps(S, f, addr):
    t = Text('cpsid' if S.branch(f.im == 1) else 'cpsie')
    t.ops.append(('i' if S.branch(f.I == 1) else '') + ('f' if S.branch(f.F == 1) else ''))
    return t

def x_cps(S, f, M):
    M.next(f)
    if S.branch(f.I == 1): M.w(PRIMASK, f.im)
    if S.branch(f.F == 1): M.w(FAULTMASK, f.im)

enc('cps', '1011 0110 011 im:1 00 I:1 F:1', t_cps, x_cps, 'system',
    unpred=lambda S, f: S.and_(f.I == 0, f.F == 0))

def t_imm(S, f, addr): return Text(f.a.mn).imm(S, f.imm)

enc('bkpt', '1011 1110 imm:8', t_imm, x_next, 'system', mn='bkpt')
enc('udf', '1101 1110 imm:8', t_imm, x_next, 'system', mn='udf')
enc('svc', '1101 1111 imm:8', t_imm, x_next, 'system', mn='svc')
enc('udf.w', '11110 1111111 imm4:4 | 1010 imm12:12',
    lambda S, f, addr: Text('udf.w').imm(S, (f.imm4 << 12) | f.imm12), x_next, 'system')

for k, mn in enumerate(('nop', 'yield', 'wfe', 'wfi', 'sev')):
    enc(mn, '1011 1111 %s 0000' % format(k, '04b'), lambda S, f, addr: Text(f.a.mn), x_next, 'system', mn=mn)

def t_barrier(S, f, addr):
    t = Text(f.a.mn)
    t.ops.append('sy' if S.branch(f.opt == 15) else '#%d' % f.opt)
    return t

for b, mn in (('0100', 'dsb'), ('0101', 'dmb'), ('0110', 'isb')):
    enc(mn, '11110 0 111 01 1 1111 | 1000 1111 %s opt:4' % b, t_barrier, x_next, 'system', mn=mn)

SYSM = {0: 'APSR', 1: 'IAPSR', 2: 'EAPSR', 3: 'XPSR', 5: 'IPSR', 6: 'EPSR', 7: 'IEPSR', 8: 'MSP', 9: 'PSP',
        16: 'PRIMASK', 17: 'BASEPRI', 18: 'BASEPRI_MAX', 19: 'FAULTMASK', 20: 'CONTROL'}

def sysm_known(S, f): return S.or_(*[f.sysm == k for k in sorted(SYSM)])

def special(S, f):
    """Number of the special register, explored."""
    for k in sorted(SYSM):
        if S.branch(f.sysm == k): return k

def t_mrs(S, f, addr):
    t = Text('mrs').reg(f.d)
    t.ops.append(SYSM[special(S, f)])
    return t

def x_mrs(S, f, M):
    k = special(S, f)
    priv = (M.r(CONTROL) & 1) == 0
    x = M.r(XPSR)
    if k < 8:
        v = 0
        if k & 1: v = v | (x & 0x1ff)
        if not k & 4: v = v | (x & 0xf8000000)
    elif k == 8: v = S.ite(priv, M.r(MSP), 0)
    elif k == 9: v = S.ite(priv, M.r(PSP), 0)
    elif k == 16: v = S.ite(priv, M.r(PRIMASK) & 1, 0)
    elif k in (17, 18): v = S.ite(priv, M.r(BASEPRI) & 0xff, 0)
    elif k == 19: v = S.ite(priv, M.r(FAULTMASK) & 1, 0)
    else: v = M.r(CONTROL) & 3
    M.next(f); M.w(f.d, v)

enc('mrs', '11110 0 1111 1 0 1111 | 1000 d:4 sysm:8', t_mrs, x_mrs, 'system',
    unpred=lambda S, f: S.or_(is13or15(S, f.d), S.not_(sysm_known(S, f))))

def t_msr(S, f, addr):
    k = special(S, f)
    s = SYSM[k]
    if k < 4:
        if S.branch(f.mask == 2): s = s + '_nzcvq'
        elif S.branch(f.mask == 1): s = s + '_g'
        else: s = s + '_nzcvqg'
    t = Text('msr')
    t.ops.append(s)
    return t.reg(f.n)

enc('msr', '11110 0 1110 0 0 n:4 | 1000 mask:2 00 sysm:8', t_msr, x_next, 'msr',
    unpred=lambda S, f: S.or_(is13or15(S, f.n), S.not_(sysm_known(S, f)), f.mask == 0,
                              S.and_(f.mask != 2, f.sysm > 3)))

ENC = {e.name: e for e in E}
assert len(ENC) == len(E)
