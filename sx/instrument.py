"""Executes Python source with symbolic values in place of ints, bools, text and
bytes.

The source of the code under test is read from disk on every run, parsed, and a
few syntactic forms that CPython would evaluate on concrete values only (calls
of built-ins such as int/str/len/hash, %-formatting, subscription, membership,
f-strings, special methods that must return concrete values) are replaced by
calls of equivalents that also accept symbolic values.  Everything else is
executed by CPython as written.
"""
import ast
import builtins
import copy
import collections
import collections.abc
import functools
import importlib.abc
import importlib.util
import operator
import os
import re
import shlex
import struct
import sys
import types

from . import terms as T
from . import values as V
from .engine import cur, Control, Inconclusive

if not hasattr(collections, 'Sequence'):
    # removed from Python 3.10; the interpreter the project runs on has it
    for _n in ('Sequence', 'Iterable', 'Mapping', 'MutableMapping', 'MutableSequence', 'Callable', 'Set'):
        setattr(collections, _n, getattr(collections.abc, _n))

SymInt, SymBool, SymStr, SymBytes = V.SymInt, V.SymBool, V.SymStr, V.SymBytes
_SYM = frozenset((SymInt, SymBool, SymStr, SymBytes, V.ArrBytes, V.SymHash, V.SymFloat))
_PLAINKEY = frozenset((int, str, bool, type(None)))
OUT = [None]            # list receiving printed text

# --------------------------------------------------------------- built-in calls

def raw(x, name):
    return getattr(getattr(type(x), name, None), '__vp_raw__', None)

def o_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    t = type(x)
    if len(a) > 1 or k:
        base = a[1] if len(a) > 1 else k['base']
        base = V.as_index(base)
        base = int(base)
        if t is SymStr:
            return V.parse_int(x, base)
        return int(x, base)
    if t is SymInt: return x
    if t is SymBool: return x.i()
    if t is SymStr: return V.parse_int(x, 10)
    for n in ('__int__', '__index__'):
        m = raw(x, n)
        if m is not None: return m(x)
    return int(x)

def o_str(*a, **k):
    if len(a) != 1 or k: return str(*a, **k)
    return V.as_text(a[0])

def o_repr(x): return V.as_repr(x)

def o_bool(*a):
    if not a: return False
    x = a[0]
    t = type(x)
    if t is SymBool: return x
    if t is SymInt: return x != 0
    m = raw(x, '__bool__')
    if m is not None: return m(x)
    return bool(x)

def o_len(x):
    t = type(x)
    if t is SymStr: return x._len()
    m = raw(x, '__len__')
    if m is not None: return m(x)
    return len(x)

def has_sym(x, depth=4):
    t = type(x)
    if t in _SYM: return True
    if t is tuple and depth: return any(has_sym(y, depth - 1) for y in x)
    return False

def o_hash(x):
    m = raw(x, '__hash__')
    if m is not None: return m(x)
    if has_sym(x): return V.SymHash(x)
    if type(x) in (str, int, bool, tuple, bytes): return V.SymHash(x)
    return hash(x)

def o_type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) in _SYM: return x.__class__
        if type(x) is VDict: return dict
        return type(x)
    return type(*a, **k)

def o_chr(x): return V.chr_(x) if type(x) is SymInt else chr(x)

def o_ord(x):
    if type(x) is SymStr:
        c = x._chars()
        if len(c) != 1: raise TypeError('ord() expected a character')
        c = c[0]
        if type(c) is str: return ord(c)
        return V.merge_ints([(t, ord(s)) for t, s in V._char_vals(c)])
    return ord(x)

def _based(prefix, conv):
    def f(x):
        i = V.as_index(x)
        if type(i) is not SymInt:
            return {'x': hex, 'o': oct, 'b': bin}[conv](i)
        if i.lo < 0:
            if i < 0: return V.mkstr(['-', prefix, ('num', -i, conv)]) if type(-i) is SymInt else '-' + prefix + format(-i, conv)
            i = V._nonneg(i)
            if type(i) is int: return prefix + format(i, conv)
        return V.mkstr([prefix, ('num', i, conv)])
    return f

def o_format(v, spec=''): return V.fmt_value(v, spec)

def o_bytearray(*a, **k): return mkbytes(bytearray, a, k)
def o_bytes(*a, **k):
    if len(a) == 1 and not k and type(a[0]) not in (SymBytes, V.ArrBytes):
        m = getattr(type(a[0]), '__bytes__', None)
        if m is not None and type(a[0]) is not bytes: return m(a[0])
    return mkbytes(bytes, a, k)

def mkbytes(kind, a, k):
    if not a: return SymBytes([], kind)
    x = a[0]
    if len(a) > 1 or k or type(x) is str or type(x) is SymStr:
        if type(x) is SymStr: raise Inconclusive('encoding symbolic text')
        return SymBytes(list(kind(*a, **k)), kind)
    if type(x) is V.ArrBytes and kind is bytearray: return x.copy()
    if type(x) is SymInt or (isinstance(x, int) and type(x) is not SymBool):
        n = int(x)
        if n < 0: raise ValueError('negative count')
        if n > 64 and kind is bytearray:
            return V.ArrBytes(T.acon(V.ArrBytes.IW, T.const(0, 8)), n)
        return SymBytes([0] * n, kind)
    m = raw(x, '__index__')
    if m is not None and not hasattr(type(x), '__iter__'):
        return mkbytes(kind, (m(x),), {})
    return SymBytes(V.bytes_items(x), kind)

def o_print(*a, **k):
    sep, end, f = k.get('sep', ' '), k.get('end', '\n'), k.get('file')
    if sep is None: sep = ' '
    if end is None: end = '\n'
    if f is not None and f is not sys.stdout: return
    out = OUT[0]
    if out is None: return
    for n, x in enumerate(a):
        if n: out.append(sep)
        out.append(V.as_text(x))
    out.append(end)

def o_map(f, *xs):
    f = conv(f)
    return map(f, *xs)

def o_filter(f, xs): return filter(conv(f) if f is not None else None, xs)

def o_float(*a):
    if a and type(a[0]) is V.SymFloat: return a[0]
    return float(*a)

def o_divmod(a, b): return divmod(a, b)

def o_list(*a):
    if a and type(a[0]) is SymBytes: return list(a[0].v)
    return list(*a)

def o_isinstance(x, c):
    return isinstance(x, c)

def o_reversed(x):
    return reversed(x)

def o_slice(*a): return slice(*a)

def o_getattr(*a): return getattr(*a)

def o_min(*a, **k): return _minmax(min, lambda x, y: y < x, a, k)
def o_max(*a, **k): return _minmax(max, lambda x, y: y > x, a, k)

def _minmax(f, less, a, k):
    xs = a[0] if len(a) == 1 else a
    xs = list(xs)
    if k or not xs or not all(type(x) in (int, SymInt) for x in xs):
        return f(xs, **k) if xs or k else f(*a)
    r = xs[0]
    for y in xs[1:]:
        c = less(r, y)
        if type(c) is SymBool:
            r = V.merge_ints([(c.t, y), (T.bnot_(c.t), r)])
        elif c:
            r = y
    return r

def o_abs(x):
    if type(x) is SymInt: return V._absmerge(x)
    return abs(x)

OV = {int: o_int, str: o_str, repr: o_repr, bool: o_bool, len: o_len, hash: o_hash,
      type: o_type, chr: o_chr, ord: o_ord, hex: _based('0x', 'x'), oct: _based('0o', 'o'),
      bin: _based('0b', 'b'), format: o_format, bytearray: o_bytearray, bytes: o_bytes,
      print: o_print, map: o_map, filter: o_filter, float: o_float, list: o_list,
      min: o_min, max: o_max, abs: o_abs}
OV_NAMES = frozenset(f.__name__ for f in OV)

def conv(f):
    try:
        return OV.get(f, f)
    except TypeError:
        return f

def vp_call(f, *a, **k):
    try:
        g = OV.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*a, **k)
    return f(*a, **k)

# -------------------------------------------------------------- method calls

METHODS = frozenset(('join', 'format', 'get', 'setdefault', 'pop', 'from_bytes', 'to_bytes', 'pack',
                     'unpack', 'unpack_from', 'pack_into', 'count', 'index', 'find', 'startswith', 'endswith',
                     'fromhex', 'hex', 'extend', 'bit_length', 'bit_count', 'append', 'reduce', 'write', 'match', 'fullmatch',
                     'search', 'findall', 'finditer', 'sub', 'split'))

def int_from_bytes(b, byteorder='big', signed=False):
    items = V.bytes_items(b)
    if byteorder == 'big': items = items[::-1]
    v = 0
    for i, x in enumerate(items): v = v | (x << (8 * i))
    if signed and items:
        n = 8 * len(items)
        s = (v >> (n - 1)) & 1
        v = v - (s << n)
    return v

_FMT = {'b': (1, 1), 'B': (1, 0), 'h': (2, 1), 'H': (2, 0), 'i': (4, 1), 'I': (4, 0), 'l': (4, 1),
        'L': (4, 0), 'q': (8, 1), 'Q': (8, 0), '?': (1, 0)}

def _fmt_parse(fmt):
    if isinstance(fmt, bytes): fmt = fmt.decode()
    order = '<'
    if fmt and fmt[0] in '<>=!@':
        order = {'>': '>', '!': '>'}.get(fmt[0], '<')
        native = fmt[0] == '@'
        fmt = fmt[1:]
    else:
        native = True
    out = []
    n = ''
    for c in fmt:
        if c.isspace(): continue
        if c.isdigit(): n += c; continue
        k = int(n) if n else 1
        n = ''
        if c in 's':
            out.append(('s', k))
        elif c == 'x':
            out.append(('x', k))
        elif c in _FMT or c == 'f':
            out.extend([(c, None)] * k)
        else:
            raise Inconclusive('struct format %r' % fmt)
    if native and len(set(c for c, _ in out)) > 1:
        raise Inconclusive('struct format with native alignment')
    return order, out

def struct_pack(fmt, *args):
    if not any(has_sym(a) for a in args):
        return SymBytes(list(struct.pack(fmt, *args)), bytes)
    order, items = _fmt_parse(fmt)
    out = []
    args = list(args)
    for c, n in items:
        if c == 'x': out.extend([0] * n); continue
        a = args.pop(0)
        if c == 's':
            b = V.bytes_items(a)[:n]
            out.extend(b + [0] * (n - len(b)))
        elif c == 'f':
            if type(a) is V.SymFloat: bits = a.bits
            elif isinstance(a, float): bits = struct.unpack('>I', struct.pack('>f', a))[0]
            else: raise Inconclusive('packing a symbolic integer as float')
            b = [(bits >> (8 * i)) & 0xff for i in range(4)]
            out.extend(b if order == '<' else b[::-1])
        else:
            size, sg = _FMT[c]
            a = V.as_index(a)
            lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if sg else (0, (1 << 8 * size) - 1)
            if not (lo <= a and a <= hi):
                raise struct.error('argument out of range')
            b = [(a >> (8 * i)) & 0xff for i in range(size)]
            out.extend(b if order == '<' else b[::-1])
    if args: raise struct.error('too many arguments')
    return SymBytes(out, bytes)

def struct_place(data, offset, need):
    offset = V.as_index(offset)
    n = o_len(data)
    if offset < 0:
        offset = offset + n
        if offset < 0: raise struct.error('offset out of range')
    if offset + need > n: raise struct.error('requires a buffer of at least %d bytes' % need)
    return offset

def struct_unpack(fmt, data, exact=True, offset=0):
    order, items = _fmt_parse(fmt)
    need = sum(n if c in 'sx' else 4 if c == 'f' else _FMT[c][0] for c, n in items)
    if not exact:
        offset = struct_place(data, offset, need)
        data = vp_getitem(data, slice(offset, offset + need))
    b = V.bytes_items(data)
    if len(b) != need:
        raise struct.error('unpack requires a buffer of %d bytes' % need)
    out = []
    pos = 0
    for c, n in items:
        if c == 'x': pos += n; continue
        if c == 's':
            out.append(SymBytes(b[pos:pos + n], bytes)); pos += n; continue
        size = 4 if c == 'f' else _FMT[c][0]
        v = int_from_bytes(SymBytes(b[pos:pos + size]), 'little' if order == '<' else 'big',
                           c != 'f' and bool(_FMT[c][1]))
        pos += size
        if c == 'f':
            if type(v) is SymInt:
                # NaN patterns are outside what a float is claimed to preserve
                e = ((v >> 23) & 0xff) == 0xff
                m = (v & 0x7fffff) != 0
                if e & m:
                    raise Inconclusive('NaN pattern')
                v = V.SymFloat(v)
            else:
                v = struct.unpack('>f', struct.pack('>I', v))[0]
        out.append(v)
    return tuple(out)

def vp_mc(recv, name, *a, **k):
    t = type(recv)
    if t is str:
        if name == 'join': return V.str_join(recv, *a)
        if name == 'format': return V.str_format(recv, a, k)
        if any(type(x) is SymStr for x in a):
            return getattr(SymStr([recv]) if recv else SymStr([]), name)(*a, **k)
    elif isinstance(recv, dict) and a and type(a[0]) in (SymInt, SymBool) and t is dict:
        key = a[0].i() if type(a[0]) is SymBool else a[0]
        if name == 'get':
            return V.dict_get(recv, key, a[1] if len(a) > 1 else k.get('default'))
    elif recv is int or recv is bool:
        if name == 'from_bytes': return int_from_bytes(*a, **k)
        if name in ('bit_length', 'bit_count', 'to_bytes'): return getattr(a[0], name)(*a[1:], **k)
    elif t is int:
        if name == 'to_bytes': return SymBytes(list(recv.to_bytes(*a, **k)), bytes)
    elif (recv is re or t is re.Pattern or recv is shlex) and any(type(x) is SymStr for x in a):
        # one run per text
        a = [x._concrete() if type(x) is SymStr else x for x in a]
    elif recv is struct:
        if name == 'pack': return struct_pack(*a)
        if name == 'unpack': return struct_unpack(*a)
        if name == 'unpack_from': return struct_unpack(a[0], a[1], False, a[2] if len(a) > 2 else k.get('offset', 0))
        if name == 'pack_into':
            b = struct_pack(a[0], *a[3:])
            i = struct_place(a[1], a[2], len(b))
            a[1][i:i + len(b)] = b
            return None
    elif t is struct.Struct:
        if name == 'pack': return struct_pack(recv.format, *a)
        if name == 'unpack': return struct_unpack(recv.format, *a)
        if name == 'pack_into': return vp_mc(struct, name, recv.format, *a)
        if name == 'unpack_from': return struct_unpack(recv.format, a[0], False, a[1] if len(a) > 1 else k.get('offset', 0))
    elif t is list or t is tuple:
        if name == 'count' and (type(a[0]) in _SYM or any(type(x) in _SYM for x in recv)):
            return sum([V.merge(c, 1, 0) for c in [V.bt(x == a[0]) for x in recv]])
    elif t is bytes or t is bytearray:
        if name == 'join': 
            out = []
            for n, x in enumerate(a[0]):
                if n: out.extend(recv)
                out.extend(V.bytes_items(x))
            return SymBytes(out, t)
    elif recv is bytes or recv is bytearray:
        if name == 'fromhex' and type(a[0]) is not SymStr: return SymBytes(list(recv.fromhex(*a)), recv)
        if name == 'join': return vp_mc(*a)
    elif recv is str:
        if name in ('join', 'format'): return vp_mc(a[0], name, *a[1:], **k)
        if a and type(a[0]) is SymStr: return getattr(SymStr, name)(*a, **k)
    elif recv is sys.stdout and name == 'write':
        if OUT[0] is not None: OUT[0].append(a[0])
        return None
    return getattr(recv, name)(*a, **k)

# --------------------------------------------------------------- dictionaries

def symkey(k):
    t = type(k)
    if t in _SYM: return True
    if t is tuple: return any(symkey(x) for x in k)
    if t in _PLAINKEY or t in (bytes, float): return False
    return raw(k, '__hash__') is not None

_MISSING = object()

class VDict(dict):
    """dict that also takes symbolic keys, kept as a list of entries which
    lookups compare with (branching on equality)."""
    __slots__ = ('sym',)

    def __init__(self, *a, **k):
        self.sym = None
        if a and len(a) == 1 and not isinstance(a[0], dict) and not hasattr(a[0], 'keys'):
            for x, y in a[0]: self[x] = y
            dict.update(self, **k)
        elif a and isinstance(a[0], VDict) and a[0].sym:
            for x, y in a[0].items(): self[x] = y
            dict.update(self, **k)
        else:
            dict.__init__(self, *a, **k)

    def _find(self, k):
        """('d', key) / ('s', index) / None"""
        if not symkey(k):
            if dict.__contains__(self, k): return ('d', k)
        else:
            for x in dict.keys(self):
                if _keyeq(x, k): return ('d', x)
        if self.sym:
            for n, e in enumerate(self.sym):
                if e[0] is k or _keyeq(e[0], k): return ('s', n)
        return None

    def _get(self, k, default):
        if self.sym is None:
            if not symkey(k): return dict.get(self, k, default)
            if type(k) is SymBool: k = k.i()
            if type(k) is SymInt and all(type(x) in (int, bool) for x in dict.keys(self)):
                return V.dict_get(self, k, default) if dict.__len__(self) else default
        f = self._find(k)
        if f is None: return default
        return dict.__getitem__(self, f[1]) if f[0] == 'd' else self.sym[f[1]][1]

    def get(self, k, default=None): return self._get(k, default)

    def __getitem__(self, k):
        r = self._get(k, _MISSING)
        if r is _MISSING: raise KeyError(k)
        return r

    def __setitem__(self, k, v):
        if self.sym is None and not symkey(k):
            return dict.__setitem__(self, k, v)
        f = self._find(k)
        if f is None:
            if symkey(k):
                if self.sym is None: self.sym = []
                self.sym.append([k, v])
            else:
                dict.__setitem__(self, k, v)
        elif f[0] == 'd':
            dict.__setitem__(self, f[1], v)
        else:
            self.sym[f[1]][1] = v

    def __contains__(self, k):
        if self.sym is None and not symkey(k): return dict.__contains__(self, k)
        return self._find(k) is not None

    def __delitem__(self, k):
        if self.sym is None and not symkey(k): return dict.__delitem__(self, k)
        f = self._find(k)
        if f is None: raise KeyError(k)
        if f[0] == 'd': dict.__delitem__(self, f[1])
        else: del self.sym[f[1]]

    def setdefault(self, k, default=None):
        r = self._get(k, _MISSING)
        if r is _MISSING:
            self[k] = r = default
        return r

    def pop(self, k, *d):
        r = self._get(k, _MISSING)
        if r is _MISSING:
            if d: return d[0]
            raise KeyError(k)
        del self[k]
        return r

    def clear(self):
        self.sym = None
        dict.clear(self)

    def update(self, *a, **k):
        for x in a:
            for y in (x.items() if hasattr(x, 'keys') else x): self[y[0]] = y[1]
        for y in k.items(): self[y[0]] = y[1]

    def copy(self): return VDict(self)
    def __len__(self): return dict.__len__(self) + len(self.sym or ())
    def __bool__(self): return self.__len__() > 0
    def items(self):
        return dict.items(self) if not self.sym else list(dict.items(self)) + [tuple(e) for e in self.sym]
    def keys(self):
        return dict.keys(self) if not self.sym else list(dict.keys(self)) + [e[0] for e in self.sym]
    def values(self):
        return dict.values(self) if not self.sym else list(dict.values(self)) + [e[1] for e in self.sym]
    def __iter__(self): return iter(self.keys())

def _keyeq(x, k):
    if type(x) is tuple and type(k) is tuple:
        return len(x) == len(k) and all(_keyeq(p, q) for p, q in zip(x, k))
    if type(x) is str and type(k) in (SymInt, SymBool): return False
    if type(k) is str and type(x) in (SymInt, SymBool): return False
    return bool(x == k)

def o_dict(*a, **k): return VDict(*a, **k)
OV[dict] = o_dict
OV_NAMES = OV_NAMES | {'dict'}

def vp_lru_cache(maxsize=128, typed=False):
    if callable(maxsize): return vp_lru_cache()(maxsize)
    def deco(f):
        store = VDict()
        def g(*a, **k):
            key = (a, tuple(sorted(k.items())))
            r = store._get(key, _MISSING)
            if r is _MISSING:
                r = store[key] = f(*a, **k)
            return r
        g.cache_clear = store.clear
        g.__wrapped__ = f
        g.__name__ = getattr(f, '__name__', 'cached')
        return g
    return deco

# ------------------------------------------------------------------- operators

def vp_mod(a, b):
    t = type(a)
    if t is str or t is SymStr:
        return V.str_mod(a, b)
    return a % b

def vp_imod(a, b):
    t = type(a)
    if t is str or t is SymStr:
        return V.str_mod(a, b)
    return operator.imod(a, b)

def vp_getitem(o, k):
    t = type(k)
    if t is SymInt or t is SymBool:
        if t is SymBool: k = k.i()
        if type(k) is SymInt:
            to = type(o)
            if to is list or to is tuple or to is str:
                return V.seq_get(o, k, {list: 'list', tuple: 'tuple', str: 'string'}[to] + ' index out of range')
            if to is dict:
                return V.dict_get(o, k)
            if isinstance(o, dict) and to is not VDict:
                return o[int(k)]
            if to is bytes or to is bytearray:
                return V.seq_get(list(o), k, to.__name__ + ' index out of range')
            if isinstance(o, tuple) and to.__getitem__ is tuple.__getitem__:
                return V.seq_get(tuple(o), k, 'tuple index out of range')
    elif t is slice:
        if type(o) in (list, tuple, str, bytes, bytearray): k = V.slice_clip(k, len(o))
    elif t not in _PLAINKEY and not isinstance(k, (slice, tuple, str)):
        m = raw(k, '__index__')
        to = type(o)
        if m is not None and (to is list or to is tuple or to is str or to is bytes or to is bytearray):
            return vp_getitem(o, m(k))
    return o[k]


def vp_in(x, c):
    tc = type(c)
    if type(x) is SymBool: x = x.i()
    if type(x) is SymInt:
        if tc in (set, frozenset, dict, range) or (tc is VDict and not c.sym) or isinstance(c, (types.MappingProxyType,)):
            if tc is range:
                if c.step == 1 and len(c):
                    return V.mkbool(V._between(x, c[0], c[-1]))
            if tc is range and len(c) > 4096: raise Inconclusive('membership of a large range')
            return V.mkbool(T.bor_(*[V._eqt(x, y) for y in c if V.intlike(y)]))
    if tc is list or tc is tuple:
        acc = []
        for y in c:
            if y is x: return True
            r = y == x
            if type(r) is SymBool:
                acc.append(r.t)
            elif r:
                return True
        return V.mkbool(T.bor_(*acc)) if acc else False
    if tc is str and type(x) is SymStr:
        ch = x._chars()
        if len(ch) == 1:
            return V.mkbool(T.bor_(*[V._char_eq(ch[0], y) for y in c]))
        return any(bool(V.mkbool(T.band_(*[V._char_eq(p, q) for p, q in zip(ch, c[i:])])))
                   for i in range(len(c) - len(ch) + 1))
    if (tc in (set, frozenset, dict) or (tc is VDict and not c.sym)) and type(x) is SymStr:
        acc = [V.str_eq(x, y) for y in c if isinstance(y, str)]
        return V.mkbool(T.bor_(*acc))
    return x in c

def vp_not(x):
    """not, for results of vp_in."""
    return V.lnot(x)

def vp_is(x, c, neg):
    """x is True / x is False"""
    if type(x) is SymBool:
        r = x if c else V.lnot(x)
    else:
        r = x is c
    return V.lnot(r) if neg else r

def vp_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is not tuple:
            out.append(p)
            continue
        v, c, spec = p
        if c == 114: v = V.as_repr(v)
        elif c == 115: v = V.as_text(v)
        elif c == 97: v = ascii(v)
        out.append(V.fmt_value(v, spec))
    return V.mkstr(out)

def vp_ctl(e):
    if isinstance(e, Control): raise e

# ------------------------------------------------------------- special methods

def _final(name, r):
    t = type(r)
    if name in ('__bool__', '__nonzero__', '__contains__'):
        return bool(r) if t in _SYM else r
    if name in ('__int__', '__index__', '__len__', '__length_hint__', '__trunc__'):
        return int(r) if t in (SymInt, SymBool) else r
    if name in ('__str__', '__repr__', '__format__'):
        return r._concrete() if t is SymStr else r
    if name == '__hash__':
        return hash(r) if t in _SYM else r
    if name == '__float__':
        return float(r) if t in _SYM else r
    return r

SPECIAL = frozenset(('__bool__', '__nonzero__', '__int__', '__index__', '__len__', '__str__', '__repr__',
                     '__hash__', '__format__', '__float__', '__contains__'))

def vp_special(name):
    def deco(fn):
        def method(self, *a, **k):
            return _final(name, fn(self, *a, **k))
        method.__vp_raw__ = fn
        method.__name__ = getattr(fn, '__name__', name)
        method.__wrapped__ = fn
        return method
    return deco

# ------------------------------------------------------------------- rewriting

def _name(n): return ast.Name(id=n, ctx=ast.Load())

_PURE = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Attribute, ast.Load, ast.Subscript, ast.operator,
         ast.USub, ast.UAdd, ast.Invert)

def _pure(e):
    """An expression without calls (other than of operators and properties)."""
    return all(isinstance(x, _PURE) for x in ast.walk(e))

def _lambda(x):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=x)

def _simple(body):
    """Assignments of such expressions to names or own attributes only."""
    for x in body:
        if isinstance(x, ast.Pass): continue
        if isinstance(x, ast.Assign) and len(x.targets) == 1: t = x.targets[0]
        elif isinstance(x, ast.AugAssign): t = x.target
        else: return False
        if isinstance(t, ast.Attribute):
            if not (isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr[0] == '_'): return False
        elif not isinstance(t, ast.Name): return False
        if not _pure(x.value): return False
    return True

class _Temps(ast.NodeTransformer):
    """Reads of assigned targets become reads of the temporaries."""
    def __init__(self, m): self.m = m
    def visit_Name(self, n):
        return _name(self.m[n.id]) if n.id in self.m else n
    def visit_Attribute(self, n):
        k = ast.unparse(n)
        if k in self.m: return _name(self.m[k])
        return self.generic_visit(n)

class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.cls = 0
        self.loop = 0
        self.fn = 0
        self.temps = 0

    def visit_For(self, node):
        self.loop += 1
        try: return self.generic_visit(node)
        finally: self.loop -= 1
    visit_While = visit_For

    def _branch(self, body, tag):
        """(statements computing a branch into temporaries, {target: temporary})"""
        m, out = {}, []
        for x in copy.deepcopy(body):
            if isinstance(x, ast.Pass): continue
            t = x.targets[0] if isinstance(x, ast.Assign) else x.target
            k = ast.unparse(t)
            value = x.value
            if isinstance(x, ast.AugAssign):
                left = copy.deepcopy(t)
                left.ctx = ast.Load()
                value = ast.BinOp(left=left, op=x.op, right=value)
            value = self.visit(_Temps(m).visit(value))
            self.temps += 1
            m[k] = '_vp_%s%d' % (tag, self.temps)
            out.append(ast.Assign(targets=[ast.Name(id=m[k], ctx=ast.Store())], value=value))
        return out, m

    def visit_If(self, node):
        """In loops, both outcomes of a symbolic condition are computed and merged where that is possible."""
        if node.orelse and len(node.body) == len(node.orelse) == 1:
            a, b = node.body[0], node.orelse[0]
            if isinstance(a, ast.Expr) and isinstance(b, ast.Expr) and isinstance(a.value, ast.Call) \
                    and isinstance(b.value, ast.Call) and ast.dump(a.value.func) == ast.dump(b.value.func) \
                    and len(a.value.args) == len(b.value.args) == 1 and not a.value.keywords and not b.value.keywords \
                    and _pure(a.value.args[0]) and _pure(b.value.args[0]) and _pure(a.value.func):
                # f(x) or f(y)
                return self.visit(ast.copy_location(ast.Expr(ast.Call(func=a.value.func, args=[ast.IfExp(
                    test=node.test, body=a.value.args[0], orelse=b.value.args[0])], keywords=[])), node))
        if not (self.loop and self.fn and _simple(node.body) and _simple(node.orelse)):
            return self.generic_visit(node)
        ta, ma = self._branch(node.body, 'a')
        tb, mb = self._branch(node.orelse, 'b')
        keys = sorted(set(ma) | set(mb))
        if not keys: return self.generic_visit(node)
        self.temps += 1
        c, r = '_vp_c%d' % self.temps, '_vp_r%d' % self.temps
        at = lambda k: ast.parse(k, mode='eval').body
        def store(k):
            t = at(k)
            t.ctx = ast.Store()
            return t
        tup = lambda m: ast.Tuple(elts=[_name(m[k]) if k in m else at(k) for k in keys], ctx=ast.Load())
        set_ = lambda n, v: ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=v)
        call = lambda f, *a: ast.Call(func=_name(f), args=list(a), keywords=[])
        none = lambda: ast.Constant(None)
        test = self.visit(node.test)
        body = [self.visit(x) for x in node.body]
        orelse = [self.visit(x) for x in node.orelse]
        out = [
            set_(c, test), set_(r, none()),
            ast.If(test=call('__vp_unknown__', _name(c)), body=[ast.Try(
                body=ta + tb + [set_(r, call('__vp_merge__', _name(c), tup(ma), tup(mb)))],
                handlers=[ast.ExceptHandler(type=_name('__vp_exception__'), name=None, body=[ast.Pass()])],
                orelse=[], finalbody=[])], orelse=[]),
            ast.If(test=ast.Compare(left=_name(r), ops=[ast.IsNot()], comparators=[none()]),
                   body=[ast.Assign(targets=[ast.Tuple(elts=[store(k) for k in keys], ctx=ast.Store())], value=_name(r))],
                   orelse=[ast.If(test=_name(c), body=body, orelse=orelse)])]
        for x in out: ast.copy_location(x, node)
        return out

    def visit_ClassDef(self, node):
        for b in node.body:
            if isinstance(b, ast.FunctionDef) and b.name in SPECIAL:
                b.decorator_list.append(ast.copy_location(
                    ast.Call(func=_name('__vp_special__'), args=[ast.Constant(b.name)], keywords=[]), b))
        return self.generic_visit(node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('sum', 'len') and len(node.args) == 1 and not node.keywords:
            # sum(x for ... if c) is sum(x if c else 0 for ...), len([x for ... if c]) the sum of ones
            g = node.args[0]
            if isinstance(g, (ast.GeneratorExp, ast.ListComp)) and (f.id == 'sum' or isinstance(g, ast.ListComp)) \
                    and len(g.generators) == 1 and len(g.generators[0].ifs) == 1 and _pure(g.elt):
                q = g.generators[0]
                one = g.elt if f.id == 'sum' else ast.Constant(1)
                return self.visit(ast.copy_location(ast.Call(func=ast.Name(id='sum', ctx=ast.Load()), args=[ast.GeneratorExp(
                    elt=ast.IfExp(test=q.ifs[0], body=one, orelse=ast.Constant(0)),
                    generators=[ast.comprehension(target=q.target, iter=q.iter, ifs=[], is_async=0)])], keywords=[]), node))
        self.generic_visit(node)
        if isinstance(f, ast.Name) and f.id in OV_NAMES:
            return ast.copy_location(ast.Call(func=_name('__vp_call__'), args=[f] + node.args,
                                              keywords=node.keywords), node)
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            return ast.copy_location(ast.Call(func=_name('__vp_mc__'),
                                              args=[f.value, ast.Constant(f.attr)] + node.args,
                                              keywords=node.keywords), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=_name('__vp_mod__'), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=ast.Call(func=_name('__vp_imod__'),
                               args=[ast.Name(id=node.target.id, ctx=ast.Load()), node.value], keywords=[])), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        s = node.slice
        if isinstance(s, ast.Constant):
            return node
        if isinstance(s, ast.Slice):
            n = lambda x: x if x is not None else ast.Constant(None)
            s = ast.Call(func=_name('__vp_slice__'), args=[n(s.lower), n(s.upper), n(s.step)], keywords=[])
        elif isinstance(s, ast.Tuple):
            return node
        return ast.copy_location(ast.Call(func=_name('__vp_getitem__'), args=[node.value, s], keywords=[]), node)

    def visit_AnnAssign(self, node):
        node.annotation = ast.Constant(None)
        if node.value is not None: node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        loop, self.loop = self.loop, 0
        self.fn += 1
        try: return self.generic_visit(node)
        finally:
            self.loop = loop
            self.fn -= 1

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op, c = node.ops[0], node.comparators[0]
        if isinstance(op, (ast.In, ast.NotIn)):
            r = ast.Call(func=_name('__vp_in__'), args=[node.left, c], keywords=[])
            if isinstance(op, ast.NotIn):
                r = ast.Call(func=_name('__vp_not__'), args=[r], keywords=[])
            return ast.copy_location(r, node)
        if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(c, ast.Constant) and (c.value is True or c.value is False):
            return ast.copy_location(ast.Call(func=_name('__vp_is__'), args=[
                node.left, c, ast.Constant(isinstance(op, ast.IsNot))], keywords=[]), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=_name('__vp_dict__'), args=[node], keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pairs = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(ast.Call(func=_name('__vp_dict__'), args=[pairs], keywords=[]), node)

    def visit_IfExp(self, node):
        pure = _pure(node.body) and _pure(node.orelse)
        self.generic_visit(node)
        if pure:
            return ast.copy_location(ast.Call(func=_name('__vp_if__'), args=[
                node.test, _lambda(node.body), _lambda(node.orelse)], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=_name('__vp_fstr__'), args=parts, keywords=[]), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        t = node.type
        names = []
        if t is None:
            names = ['BaseException']
        else:
            for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                if isinstance(x, ast.Name): names.append(x.id)
        if 'BaseException' in names:
            node.body.insert(0, ast.copy_location(ast.Expr(ast.Call(func=_name('__vp_ctl_now__'), args=[], keywords=[])), node.body[0]))
        return node

def vp_ctl_now():
    e = sys.exc_info()[1]
    if isinstance(e, Control): raise e

def _cond(c):
    """Term of the truth value of c if that is symbolic and not known, else None."""
    t = type(c)
    if t is not V.SymBool:
        if t is not V.SymInt:
            if t in _PLAINCOND: return None
            m = raw(c, '__bool__')
            if m is None: return None
            c = m(c)
        else:
            c = c != 0
        if type(c) is not V.SymBool: return None
    return c.t if V.cur().known(c.t) is None else None

_PLAINCOND = frozenset((bool, int, str, type(None), list, tuple, dict))

def vp_if(c, a, b):
    """a() if c else b(); the arms have no effects."""
    t = _cond(c)
    if t is not None:
        try:
            return V.merge(t, a(), b())
        except Exception:
            pass
    return a() if c else b()

def vp_unknown(c): return _cond(c) is not None

def vp_merge(c, xs, ys):
    t = _cond(c)
    return tuple(V.merge(t, x, y) for x, y in zip(xs, ys))

ENV = {'__vp_if__': vp_if, '__vp_unknown__': vp_unknown, '__vp_merge__': vp_merge, '__vp_dict__': VDict, '__vp_call__': vp_call, '__vp_mc__': vp_mc, '__vp_mod__': vp_mod, '__vp_imod__': vp_imod,
       '__vp_getitem__': vp_getitem, '__vp_slice__': slice, '__vp_in__': vp_in, '__vp_not__': vp_not,
       '__vp_is__': vp_is, '__vp_fstr__': vp_fstr, '__vp_special__': vp_special, '__vp_ctl_now__': vp_ctl_now, '__vp_exception__': Exception}

def compile_source(src, path):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

# --------------------------------------------------------------------- loading

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Imports the packages it is given through the rewriter."""
    def __init__(self):
        self.roots = {}          # package name -> directory
        self.extra = {}          # module name -> file
        self.code = {}
        self.functions = set()   # names of functions that ran (see trace)

    def _path(self, name):
        if name in self.extra:
            return self.extra[name], False
        top, _, rest = name.partition('.')
        d = self.roots.get(top)
        if d is None:
            return None
        p = os.path.join(d, *rest.split('.')) if rest else d
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if rest == '_version':
            return 'version-stub', False
        return None

    def find_spec(self, name, path=None, target=None):
        p = self._path(name)
        if p is None:
            return None
        return importlib.util.spec_from_loader(name, self, origin=p[0], is_package=p[1])

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        p, pkg = self._path(m.__name__)
        m.__file__ = p
        c = self.code.get(m.__name__)
        if c is None:
            if p == 'version-stub':
                src = "version = __version__ = '0'\n"
            elif os.path.exists(p):
                with open(p, 'rb') as f:
                    src = f.read()
            else:
                src = ''
            c = self.code[m.__name__] = compile_source(src, p)
        d = m.__dict__
        d.update(ENV)
        old = functools.lru_cache, getattr(functools, 'cache', None)
        functools.lru_cache = functools.cache = vp_lru_cache
        try:
            exec(c, d)
        finally:
            functools.lru_cache, functools.cache = old

FINDER = Finder()
sys.meta_path.insert(0, FINDER)

def purge(top):
    for n in list(sys.modules):
        if n == top or n.startswith(top + '.'):
            del sys.modules[n]

# ------------------------------------------------------ state kept in modules

_ATOM = (int, str, float, bool, bytes, type(None), types.BuiltinFunctionType, types.CodeType)

def fingerprint(top):
    """Hash of everything reachable from the modules of a package."""
    seen = {}
    out = []
    todo = [m for n, m in sorted(sys.modules.items()) if n == top or n.startswith(top + '.')]
    put = out.append
    while todo:
        x = todo.pop()
        t = type(x)
        if t in _ATOM_SET:
            put(x if t in (int, str, float, bool, bytes) else 0)
            continue
        i = id(x)
        if i in seen:
            put(seen[i])
            continue
        seen[i] = ('ref', len(seen))
        if t is types.ModuleType:
            if x.__name__ == top or x.__name__.startswith(top + '.'):
                put(x.__name__)
                for k in sorted(x.__dict__):
                    if not k.startswith('__'):
                        put(k); todo.append(x.__dict__[k])
            continue
        if t is dict or isinstance(x, dict):
            put(len(x))
            for k, v in x.items():
                todo.append(v); todo.append(k)
            continue
        if t is list or t is tuple or isinstance(x, (list, tuple)):
            put(len(x))
            todo.extend(x)
            continue
        if isinstance(x, (set, frozenset)):
            put(('set', len(x)))
            continue
        if t is types.FunctionType:
            put(x.__name__)
            if x.__defaults__: todo.append(x.__defaults__)
            if x.__closure__:
                for c in x.__closure__:
                    try: todo.append(c.cell_contents)
                    except ValueError: pass
            if x.__dict__: todo.append(x.__dict__)
            continue
        mod = getattr(x if isinstance(x, type) else t, '__module__', '') or ''
        if isinstance(x, type):
            if mod == top or mod.startswith(top + '.'):
                put(x.__name__)
                for k, v in list(x.__dict__.items()):
                    if k not in ('__dict__', '__weakref__', '__doc__', '__module__'):
                        put(k); todo.append(v)
            continue
        if t in _SYM:
            put(('sym', repr(getattr(x, 't', None) or getattr(x, 'p', None))))
            continue
        if isinstance(x, property):
            todo.extend((x.fget, x.fset))
            continue
        if isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
            continue
        if mod == top or mod.startswith(top + '.'):
            put(t.__name__)
            d = getattr(x, '__dict__', None)
            if d:
                put(len(d))
                for k, v in d.items():
                    put(k); todo.append(v)
            for c in t.__mro__:
                sl = c.__dict__.get('__slots__', ())
                for s in ((sl,) if isinstance(sl, str) else sl):
                    try: todo.append(getattr(x, s))
                    except AttributeError: pass
            continue
        ci = getattr(x, 'cache_info', None)
        if ci is not None:
            put(tuple(ci()))
            todo.append(getattr(x, '__wrapped__', None))
    return hash(tuple(out))

_ATOM_SET = frozenset(_ATOM)
