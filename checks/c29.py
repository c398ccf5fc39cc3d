from sx.scen import Scen
from checks.common import *

BOUNDS = {
    'quick': 'bit fields of 32-bit values: every msb and lsb with lsb <= msb in 0..31 (values and fields arbitrary); '
             'byte lists of up to 12 bytes; masks of up to three bit numbers, ranges or lists; population counts of '
             '16-bit values; floats: every non-NaN 32-bit pattern',
    'thorough': 'bit fields of 64-bit values with limits up to 63; byte lists of up to 40 bytes; population counts of '
                '32-bit values',
}
OUTSIDE = 'NaN bit patterns; fields wider than the limits; negative values except where stated'

def U(S): return S.mod('cmdis.utilities')

def bfx(bits, same):
    def fn(S):
        v = S.bv('v', bits)
        msb = S.choice('msb', range(bits))
        m = U(S)
        if same:
            S.eq(m.bfx(v, msb), (v >> msb) & 1, 'single bit')
            S.eq(m.bfx(v, msb, msb), (v >> msb) & 1, 'single bit, both limits')
            f = S.bv('f', 1)
            r = m.bfi(v, f, msb)
            S.eq(r, (v & ~(1 << msb)) | (f << msb), 'inserted bit')
            S.eq(m.bfx(r, msb), f, 'extract after insert')
            return
        lsb = S.choice('lsb', range(bits))
        S.assume(lsb <= msb)
        n = msb - lsb + 1
        S.eq(m.bfx(v, msb, lsb), (v >> lsb) & ((1 << n) - 1), 'extracted field')
        f = S.bv('f', n)
        r = m.bfi(v, f, msb, lsb)
        S.eq(r, (v & ~(((1 << n) - 1) << lsb)) | (f << lsb), 'inserted field')
        S.eq(m.bfx(r, msb, lsb), f, 'extract after insert')
        g = S.bv('g', n + 3)
        S.eq(m.bfi(v, g, msb, lsb), (v & ~(((1 << n) - 1) << lsb)) | ((g & ((1 << n) - 1)) << lsb), 'field too wide')
    return fn

def le(S):
    m = U(S)
    b = S.bytes('b', 9)
    off = S.choice('offset', range(0, 6))
    h = b[off] | (b[off + 1] << 8)
    w = h | (b[off + 2] << 16) | (b[off + 3] << 24)
    S.eq(m.bytes_to_le16(b, off), h, 'halfword')
    S.eq(m.bytes_to_le32(b, off), w, 'word')
    if off == 0:
        S.eq(m.bytes_to_le16(b), h, 'halfword')
        S.eq(m.bytes_to_le32(b), w, 'word')
        S.eq(m.bytes_to_le16(list(b)), h, 'halfword of a list')
    v = S.bv('v', 40)
    x, y = m.le16_to_bytes(v), m.le32_to_bytes(v)
    S.eq(len(x), 2, 'halfword length'); S.eq(len(y), 4, 'word length')
    for k in range(2): S.eq(x[k], (v >> (8 * k)) & 0xff, 'halfword byte')
    for k in range(4): S.eq(y[k], (v >> (8 * k)) & 0xff, 'word byte')
    S.eq(m.bytes_to_le16(x), v & 0xffff, 'halfword and back')
    S.eq(m.bytes_to_le32(y), v & 0xffffffff, 'word and back')

def lists(top):
    def fn(S):
        m = U(S)
        size = S.choice('size', (2, 4))
        n = S.choice('n', range(0, top // size + 1)) * size
        b = list(S.bytes('b', n))
        to, back = (m.byteListToU16leList, m.u16leListToByteList) if size == 2 else \
                   (m.byteListToU32leList, m.u32leListToByteList)
        r = list(to(b))
        S.eq(len(r), n // size, 'number of values')
        for k in range(n // size):
            want = 0
            for j in range(size): want = want | (b[k * size + j] << (8 * j))
            S.eq(r[k], want, 'value')
        c = list(back(r))
        S.eq(len(c), n, 'number of bytes')
        for k in range(n): S.eq(c[k], b[k], 'byte')
    return fn

def words(top):
    def fn(S):
        m = U(S)
        size = S.choice('size', (2, 4))
        n = S.choice('n', range(0, top // size + 1))
        v = [S.bv('v', 8 * size) for _ in range(n)]
        back, to = (m.byteListToU16leList, m.u16leListToByteList) if size == 2 else \
                   (m.byteListToU32leList, m.u32leListToByteList)
        b = list(to(v))
        S.eq(len(b), n * size, 'number of bytes')
        for k in range(n * size):
            S.eq(b[k], (v[k // size] >> (8 * (k % size))) & 0xff, 'byte')
        c = list(back(b))
        S.eq(len(c), n, 'number of values')
        for k in range(n): S.eq(c[k], v[k], 'value')
        S.cover()
    return fn

def partial(S):
    """Bytes that do not fill a word are ignored by the word conversion."""
    m = U(S)
    n = S.choice('n', range(0, 12))
    b = list(S.bytes('b', n))
    r = list(m.byteListToU32leList(b))
    S.eq(len(r), n // 4, 'number of words')
    for k in range(n // 4):
        S.eq(r[k], b[4 * k] | (b[4 * k + 1] << 8) | (b[4 * k + 2] << 16) | (b[4 * k + 3] << 24), 'word')

def masks(S):
    m = U(S)
    n = S.choice('n', range(0, 66))
    S.eq(m.wmask(n), (1 << n) - 1, 'mask of n bits')
    S.eq(m.bitmask(n), 1 << n, 'mask of one bit')
    S.eq(m.bitmask([n]), 1 << n, 'mask of a list')
    S.eq(m.bitmask((n, 0)), (1 << (n + 1)) - 1, 'mask of a range')

def mask_ranges(S):
    m = U(S)
    hi = S.choice('hi', range(0, 32))
    lo = S.choice('lo', range(0, 32))
    S.assume(lo <= hi)
    r = ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)
    S.eq(m.bitmask((hi, lo)), r, 'range')
    k = S.choice('k', (0, 5, 31))
    S.eq(m.bitmask((hi, lo), k), r | (1 << k), 'range and bit')
    S.eq(m.bitmask([lo, hi], (k, 0)), (1 << lo) | (1 << hi) | ((1 << (k + 1)) - 1), 'list and range')
    S.eq(m.bitmask(hi, lo, [k]), (1 << hi) | (1 << lo) | (1 << k), 'bits and list')
    S.eq(m.bitmask(), 0, 'no bits')

def counts(bits):
    def fn(S):
        m = U(S)
        v = S.bv('v', bits)
        n = 0
        for k in range(bits): n = n + ((v >> k) & 1)
        S.eq(m.hamming_weight(v), n, 'population count')
    return fn

def invert(S):
    m = U(S)
    v = S.bv('v', 32)
    S.eq(m.invert32(v), v ^ 0xffffffff, 'inverted')
    S.eq(m.invert32(m.invert32(v)), v, 'inverted twice')
    n = S.int('n', -(1 << 31), (1 << 40))
    S.eq(m.invert32(n), (n & 0xffffffff) ^ 0xffffffff, 'inverted integer')

def floats(S):
    m = U(S)
    v = S.bv('v', 32)
    S.assume(S.or_((v & 0x7f800000) != 0x7f800000, (v & 0x7fffff) == 0))
    S.eq(m.float32beToU32be(m.u32BEToFloat32BE(v)), v, 'integer to float and back')

def float_values(S):
    m = U(S)
    f, v = S.choice('f', ((0.0, 0), (1.0, 0x3f800000), (-2.5, 0xc0200000), (0.15625, 0x3e200000),
                          (3.4028234663852886e+38, 0x7f7fffff)))
    S.eq(m.float32beToU32be(f), v, 'float to integer')
    S.check(m.u32BEToFloat32BE(v) == f, 'integer to float')

def scenarios(tier):
    q = tier == 'quick'
    return [Scen('bit-fields', bfx(32 if q else 64, False)), Scen('single-bits', bfx(32 if q else 64, True)),
            Scen('little-endian', le), Scen('byte-lists', lists(12 if q else 40)),
            Scen('value-lists', words(12 if q else 40)), Scen('partial-words', partial), Scen('masks', masks),
            Scen('mask-ranges', mask_ranges), Scen('population', counts(16 if q else 32)),
            Scen('invert', invert), Scen('float', floats), Scen('float-values', float_values)]
