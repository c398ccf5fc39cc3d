"""Helpers shared by the scenarios (run symbolically and concretely)."""

def bsmod(S): return S.mod('cmdis.bitstring')

def mkbs(S, name, w):
    """An arbitrary bit string of width w and its value."""
    v = S.bv(name, w) if w else 0
    return bsmod(S).bitstring(v, w), v

def bintext(v, w):
    """The w binary digits of v, as text."""
    return format(v, '0%db' % w) if w else ''

def is_bs(S, r, w, v, what):
    """r is a bit string of width w and value v."""
    S.check(type(r) is bsmod(S).bitstring, what + ': is a bit string')
    S.eq(r.width, w, what + ': width')
    S.eq(r.value, v, what + ': value')

def same_bs(S, r, w, v, what):
    S.eq(r.width, w, what + ': width unchanged')
    S.eq(r.value, v, what + ': value unchanged')
    # the mask decides what later operations keep
    S.eq(r.mask, (1 << w) - 1, what + ': mask unchanged')

def sgn(S, v, w):
    """Two's-complement value of the w-bit v."""
    return v - (((v >> (w - 1)) & 1) << w)
