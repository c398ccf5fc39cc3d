from sx.scen import Scen
from checks.common import *

BOUNDS = {
    'quick': 'notation: every sequence of up to three elements over seven element kinds and three separators, padded '
             'to a halfword, fixed bits and the word arbitrary; sets: every set of two patterns over a window of three '
             'bits and every set of three patterns over a window of two bits (bits arbitrary where fixed), with every '
             'combination of declining handlers, all words; the same for two-halfword patterns',
    'thorough': 'notation: sequences of up to four elements; sets: three patterns over three bits, four over two bits',
}
OUTSIDE = 'malformed patterns; the same field name twice in one pattern; blanks inside a fixed value or around "="'

class Obj(object):
    def __init__(self, mnemonic, word, is32bit):
        self.mnemonic = mnemonic; self.word = word; self.is32bit = is32bit
        self.address = 0
        self.size = 4 if is32bit else 2

def digits(S, name, n):
    """n arbitrary binary digits: text and value."""
    v = S.bv(name, n)
    return bintext(v, n), v

# element: (text parts with '#n' for n fixed bits, width, field name or None, fixed)
KINDS = {
    'bits': lambda k: (('fix', 3),),
    'one': lambda k: (('txt', 'f%s' % k), ('fld', 'f%s' % k, 1)),
    'sized': lambda k: (('txt', 'ab%s(4)' % k), ('fld', 'ab%s' % k, 4)),
    'spaced': lambda k: (('txt', 'c%s  (2)' % k), ('fld', 'c%s' % k, 2)),
    'inner': lambda k: (('txt', 'D%s(  2 \t)' % k), ('fld', 'D%s' % k, 2)),
    'empty': lambda k: (('txt', 'e%s()' % k), ('fld', 'e%s' % k, 1)),
    'value': lambda k: (('txt', 'v%s=' % k), ('fixfld', 'v%s' % k, 2)),
}

def build(S, seq, seps, tail):
    """(pattern text, [(name, lo, width)], fixed mask, fixed value), 16 bits."""
    text = ''
    pos = 16
    fields, mask, val = [], 0, 0
    for k, kind in enumerate(seq):
        n = 0
        for part in KINDS[kind]('xyzw'[k]):
            if part[0] == 'txt': text = text + part[1]
            elif part[0] == 'fld':
                n = part[2]; fields.append((part[1], pos - n, n))
            else:
                n = part[-1]
                t, v = digits(S, 'bits', n)
                text = text + t
                mask |= ((1 << n) - 1) << (pos - n)
                val = val | (v << (pos - n))
                if part[0] == 'fixfld': fields.append((part[1], pos - n, n))
        pos -= n
        text = text + seps[k]
    if tail == 'field':
        text = text + 'rest(%d)' % pos
        fields.append(('rest', 0, pos))
    elif tail == 'value':
        t, v = digits(S, 'bits', pos)
        text = text + 'last=' + t
        mask |= (1 << pos) - 1; val = val | v
        fields.append(('last', 0, pos))
    else:
        t, v = digits(S, 'bits', pos)
        text = text + t
        mask |= (1 << pos) - 1; val = val | v
    return text, fields, mask, val

def notation(length, two):
    names = ('bits', 'one', 'sized', 'spaced', 'inner', 'empty', 'value')
    def fn(S):
        D = S.mod('cmdis.decoder')
        seq = [S.choice('k%d' % k, names) for k in range(length)]
        seps = [S.choice('s%d' % k, ('', ' ', '\t ')) for k in range(length)]
        tail = S.choice('tail', ('field', 'bits', 'value'))
        # adjacent elements that would read as one need a blank
        nxt = seq[1:] + [tail]
        for k, kind in enumerate(seq):
            if seps[k] == '':
                glued = (kind == 'one') or (kind == 'value' and nxt[k] == 'bits')
                S.assume(not glued)
        text, fields, mask, val = build(S, seq, seps, tail)
        got = {}
        def handler(i, **kw):
            got['kw'] = kw
            got['i'] = i
        if two:
            first = S.choice('half', ('first', 'second'))
            other, oval = digits(S, 'other', 16)
            specs = (text, other) if first == 'first' else (other, text)
            S.assume(oval >= 0xe800 if first == 'second' else (val & 0xf800) == (val & 0xf800))
            dec = D.Decoder(handler, 'm', Obj, specs[0], specs[1])
            up = 0 if first == 'first' else 16
            m = (mask << up) | (0xffff << (16 - up))
            v = (val << up) | (oval << (16 - up))
            w = S.bv('word', 32)
        else:
            up = 0
            dec = D.Decoder(handler, 'm', Obj, text)
            m, v = mask, val
            w = S.bv('word', 16)
        S.eq(dec.is32bit, two, 'size of the pattern')
        hit = (w & m) == v
        if S.branch(hit):
            S.check(bool(dec.check(w)), 'a word that agrees with the fixed bits matches')
            r = dec.decode(w, 12)
            S.check(got['i'] is r, 'the handler gets the instruction')
            S.eq(r.word, w, 'word'); S.eq(r.address, 12, 'address'); S.eq(r.is32bit, two, 'size')
            S.eq(sorted(got['kw']), sorted(n for n, _, _ in fields), 'field names')
            for n, lo, width in fields:
                is_bs(S, got['kw'][n], width, (w >> (lo + up)) & ((1 << width) - 1), 'field ' + n)
        else:
            S.check(not dec.check(w), 'a word that disagrees with a fixed bit does not match')
    return fn

class Declined(object):
    pass

def sets(count, window, two, order=None):
    """Patterns over the window at the bottom of the (last) halfword."""
    structs = tuple(range(1 << window))
    def fn(S):
        D = S.mod('cmdis.decoder')
        tree = D.DecoderTree()
        pats = []
        tried = []
        for k in range(count):
            fixed = S.choice('fixed', structs)
            v = S.bv('match', window)
            declines = S.bool('declines')
            spec = '01000' if not two else '11101'
            spec = spec + '0' * (11 - window)
            for b in range(window - 1, -1, -1):
                if fixed >> b & 1: spec = spec + bintext((v >> b) & 1, 1)
                else: spec = spec + ' %s ' % 'pqrs'[b]
            def handler(i, _k=k, _d=declines, **kw):
                tried.append(_k)
                i.k = _k
                if S.branch(_d): raise D.DecodeError()
            if two:
                # the second halfword carries the window as well
                half = '1' * (16 - window) + spec[16 - window:] if False else '1111000011110000'
                dec = D.Decoder(handler, 'p%d' % k, Obj, spec, half)
            else:
                dec = D.Decoder(handler, 'p%d' % k, Obj, spec)
            tree.add_decoder(dec)
            pats.append((fixed, v & fixed, declines))
        tree.build()
        x = S.bv('word', window)
        hw = (0x4000 if not two else 0xe800) | x
        data = [hw & 0xff, hw >> 8, 0xf0, 0xf0, 0, 0]
        if not two: data[2:] = [0, 0]
        # reference: most fixed bits first, then order of registration
        want = None
        for k in sorted(range(count), key=lambda k: (-bin(pats[k][0]).count('1'), k)):
            f, v, d = pats[k]
            if S.branch((x & f) == v) and not S.branch(d):
                want = k
                break
        r, e = S.attempt(tree.decode, bytearray(data), 64)
        if want is None:
            S.check(type(e) is D.UndefinedInstructionError, 'no matching pattern is reported as undefined')
        else:
            S.check(e is None, 'a matching pattern decodes')
            S.eq(r.k, want, 'the most specific matching pattern decodes')
            S.eq(r.address, 64, 'address')
    return fn

def mixed(S):
    """16-bit and 32-bit patterns do not see each other's words."""
    D = S.mod('cmdis.decoder')
    tree = D.DecoderTree()
    t16, v16 = digits(S, 'a', 3)
    t32, v32 = digits(S, 'b', 3)
    def handler(i, **kw): pass
    tree.add_decoder(D.Decoder(handler, 'short', Obj, '%s x(13)' % t16))
    tree.add_decoder(D.Decoder(handler, 'long', Obj, 'x(13) %s' % t32, 'y(16)'))
    tree.build()
    h1, h2 = S.bv('h1', 16), S.bv('h2', 16)
    r, e = S.attempt(tree.decode, bytearray([h1 & 0xff, h1 >> 8, h2 & 0xff, h2 >> 8]), 0)
    if S.branch(h1 >= 0xe800):
        if S.branch((h1 & 7) == v32):
            S.check(e is None, 'decodes'); S.eq(r.mnemonic, 'long', 'pattern')
            S.eq(r.word, h1 | (h2 << 16), 'word'); S.eq(r.size, 4, 'size')
        else:
            S.check(type(e) is D.UndefinedInstructionError, 'undefined')
    elif S.branch((h1 >> 13) == v16):
        S.check(e is None, 'decodes'); S.eq(r.mnemonic, 'short', 'pattern')
        S.eq(r.word, h1, 'word'); S.eq(r.size, 2, 'size')
    else:
        S.check(type(e) is D.UndefinedInstructionError, 'undefined')

def empty(S):
    """A tree without patterns of a size."""
    D = S.mod('cmdis.decoder')
    tree = D.DecoderTree()
    if S.choice('which', (0, 1)):
        tree.add_decoder(D.Decoder(lambda i, **kw: None, 'short', Obj, '0000 x(12)'))
    tree.build()
    h1, h2 = S.bv('h1', 16), S.bv('h2', 16)
    S.assume(h1 >= 0x1000)
    r, e = S.attempt(tree.decode, bytearray([h1 & 0xff, h1 >> 8, h2 & 0xff, h2 >> 8]), 0)
    S.check(type(e) is D.UndefinedInstructionError, 'undefined')

def scenarios(tier):
    q = tier == 'quick'
    out = [Scen('mixed', mixed), Scen('empty', empty)]
    for n in (1, 2) if q else (1, 2, 3):
        out.append(Scen('notation-%d' % n, notation(n, False)))
    for n in (1,) if q else (1, 2):
        out.append(Scen('notation-32-%d' % n, notation(n, True)))
    if q: out.append(Scen('notation-3', notation(3, False)))
    cs = [(1, 3), (2, 3), (3, 2)] if q else [(1, 4), (2, 4), (3, 3), (4, 2)]
    for c, w in cs:
        out.append(Scen('set-%d-of-%d-bits' % (c, w), sets(c, w, False)))
    for c, w in [(2, 2)] if q else [(2, 3), (3, 2)]:
        out.append(Scen('set-32-%d-of-%d-bits' % (c, w), sets(c, w, True)))
    return out
