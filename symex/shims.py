"""Stand-ins for the builtins and C modules the code under test uses, aware of symbolic values."""
import binascii as _binascii
import builtins as _b
import datetime as _dt
import re
import struct as _struct
import types
import uuid as _uuid
import z3
from .core import (Engine, SymInt, SymBool, SymAbort, Unsupported, Truncated, concretize, is_num, norm, rng, sand, sor, snot, sif, mkunsigned,
                   mkbool, eng, width_for, ext)
from . import values as V
from .values import SymBytes, SymByteArray, SymStr, SymFloat, SymFile

SYM = (SymInt, SymBool, SymBytes, SymStr, SymFloat)


def issym(x):
    if isinstance(x, SYM):
        return True
    if isinstance(x, (tuple, list)):
        return any(issym(y) for y in x)
    return isinstance(x, (SUUID, SDatetime, SDate, STime, STimedelta))


# ---- type stand-ins ----------------------------------------------------------------------------

class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return s_isinstance(x, cls)

    def __or__(cls, o):
        return cls


class s_int(metaclass=_TypeMeta):
    def __new__(cls, x=0, base=None):
        if base is not None:
            return _b.int(x, base)
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._i()
        if isinstance(x, SymFloat):
            return x.trunc()
        if isinstance(x, SymStr):
            return _b.int(x.concretize())
        return _b.int(x)

    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        if isinstance(b, SymBytes):
            return V.int_from(b, byteorder == 'little', signed)
        if isinstance(b, (list, tuple)) and issym(b):
            return V.int_from(V.mkbytes(b), byteorder == 'little', signed)
        return _b.int.from_bytes(b, byteorder, signed=signed)


class s_bytes(metaclass=_TypeMeta):
    def __new__(cls, x=b'', encoding=None, errors='strict'):
        if encoding is not None:
            return s_encode(x, encoding, errors)
        if isinstance(x, (bytes, bytearray, memoryview)):
            return _b.bytes(x)
        r = V.mkbytes(x)
        if isinstance(r.node, V.NConc) and isinstance(r.n, int):
            return r.node.b
        return r
    fromhex = staticmethod(_b.bytes.fromhex)

    @staticmethod
    def join(sep, it):
        return V.join(sep, it)


class s_bytearray(metaclass=_TypeMeta):
    def __new__(cls, x=b'', encoding=None, errors='strict'):
        if encoding is not None:
            x = s_encode(x, encoding, errors)
        return V.mkbytes(x, SymByteArray)


class s_memoryview(metaclass=_TypeMeta):
    def __new__(cls, x):
        return x


def s_encode(x, encoding, errors):
    if isinstance(x, SymStr):
        return V.encode(x, encoding, errors)
    return x.encode(encoding, errors)


def text_mode():
    e = Engine.cur
    return e is not None and e.text


class s_str(metaclass=_TypeMeta):
    def __new__(cls, x='', encoding=None, errors='strict'):
        if encoding is not None:
            return V.decode(V.to_sym(x), encoding, errors)
        if isinstance(x, SymStr):
            return x
        if text_mode():
            return V.printed(x)
        return _b.str(x)

    @staticmethod
    def join(sep, it):
        return V.strjoin(sep, it)
    maketrans = staticmethod(_b.str.maketrans)

    @staticmethod
    def lower(s):
        return s.lower()

    @staticmethod
    def upper(s):
        return s.upper()

    @staticmethod
    def format(s, *a, **k):
        return callm(s, 'format', *a, **k)


class s_float(metaclass=_TypeMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (SymInt, SymFloat)):
            return SymFloat(SymFloat.of(x))
        return _b.float(x)


class s_bool(metaclass=_TypeMeta):
    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymInt):
            return x != 0
        return _b.bool(x)


def _assoc_eq(a, b):
    """Equality of two keys as a (Sym)bool, without forking where possible."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return sand(*[_assoc_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    if r is NotImplemented:
        return False
    return r


_DKEYS = type({}.keys())
_DVALS = type({}.values())


class SDict(dict):
    """dict that accepts symbolic keys (association list once one is stored)."""

    def __init__(self, *a, **k):
        self._al = None
        dict.__init__(self)
        self.update(*a, **k)

    def _go(self):
        if self._al is None:
            self._al = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, key):
        if self._al is None:
            if not issym(key):
                return (key,) if dict.__contains__(self, key) else None
            ks = list(dict.keys(self))
            eqs = [_assoc_eq(key, k) for k in ks]
            if not _b.bool(sor(*eqs)):
                return None
            for k, e in zip(ks, eqs):
                if _b.bool(e):
                    return (k,)
            return None
        eqs = [_assoc_eq(key, it[0]) for it in self._al]
        if not _b.bool(sor(*eqs)):
            return None
        for it, e in zip(self._al, eqs):
            if _b.bool(e):
                return it
        return None

    def __contains__(self, key):
        return self._find(key) is not None

    def __getitem__(self, key):
        r = self._find(key)
        if r is None:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return dict.__getitem__(self, r[0]) if self._al is None else r[1]

    def get(self, key, default=None):
        r = self._find(key)
        if r is None:
            return default
        return dict.__getitem__(self, r[0]) if self._al is None else r[1]

    def __setitem__(self, key, v):
        if self._al is None and not issym(key):
            dict.__setitem__(self, key, v)
            return
        r = self._find(key)
        if self._al is None:
            if r is not None:
                dict.__setitem__(self, r[0], v)
                return
            self._go()
            self._al.append([key, v])
            return
        if r is not None:
            r[1] = v
        else:
            self._al.append([key, v])

    def __delitem__(self, key):
        r = self._find(key)
        if r is None:
            raise KeyError(key)
        if self._al is None:
            dict.__delitem__(self, r[0])
        else:
            self._al[:] = [it for it in self._al if it is not r]

    def pop(self, key, *d):
        r = self._find(key)
        if r is None:
            if d:
                return d[0]
            raise KeyError(key)
        v = dict.__getitem__(self, r[0]) if self._al is None else r[1]
        del self[r[0]]
        return v

    def setdefault(self, key, d=None):
        r = self._find(key)
        if r is None:
            self[key] = d
            return d
        return dict.__getitem__(self, r[0]) if self._al is None else r[1]

    def update(self, *a, **k):
        for x in a:
            if hasattr(x, 'keys'):
                for kk in x.keys():
                    self[kk] = x[kk]
            else:
                for kk, vv in x:
                    self[kk] = vv
        for kk, vv in k.items():
            self[kk] = vv

    def keys(self):
        return dict.keys(self) if self._al is None else [it[0] for it in self._al]

    def values(self):
        return dict.values(self) if self._al is None else [it[1] for it in self._al]

    def items(self):
        return dict.items(self) if self._al is None else [(it[0], it[1]) for it in self._al]

    def __iter__(self):
        return iter(dict.keys(self)) if self._al is None else iter([it[0] for it in self._al])

    def __len__(self):
        return dict.__len__(self) if self._al is None else len(self._al)

    def __bool__(self):
        return len(self) > 0

    def clear(self):
        self._al = None
        dict.clear(self)

    def copy(self):
        r = type(self)()
        for k, v in self.items():
            r[k] = v
        return r

    def __eq__(self, o):
        if not isinstance(o, dict) or len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class SDefaultDict(SDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SDict.__init__(self, *a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

    def copy(self):
        r = SDefaultDict(self.default_factory)
        for k, v in self.items():
            r[k] = v
        return r


class SOrderedDict(SDict):
    def popitem(self, last=True):
        ks = list(self.keys())
        if not ks:
            raise KeyError('dictionary is empty')
        k = ks[-1 if last else 0]
        return k, self.pop(k)

    def move_to_end(self, key, last=True):
        v = self.pop(key)
        if last:
            self[key] = v
        else:
            it = list(self.items())
            self.clear()
            self[key] = v
            self.update(it)


class SSet(set):
    """A set; while every element is a plain integer, a real set beside it gives the order of iteration of CPython."""

    def __init__(self, it=()):
        set.__init__(self)
        self._d = SDict()
        self._r = set()
        for x in it:
            self.add(x)

    def add(self, x):
        self._d[x] = None
        if self._r is not None:
            if type(x) is int:
                self._r.add(x)
            else:
                self._r = None

    def __contains__(self, x):
        return x in self._d

    def _drop(self, x):
        if self._r is not None:
            if type(x) is int:
                self._r.discard(x)
            else:
                self._r = None

    def remove(self, x):
        del self._d[x]
        self._drop(x)

    def discard(self, x):
        self._d.pop(x, None)
        self._drop(x)

    def pop(self):
        for k in self:
            break
        else:
            raise KeyError('pop from an empty set')
        self._d.pop(k)
        self._drop(k)
        return k

    def __iter__(self):
        if self._r is not None:
            return iter(list(self._r))
        return iter(list(self._d.keys()))

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def clear(self):
        self._d.clear()
        self._r = set()

    def copy(self):
        r = SSet(self)
        if r._r is not None and self._r is not None:
            r._r = self._r.copy()
        return r

    def union(self, *its):
        r = SSet(self)
        r.update(*its)
        return r

    __or__ = union

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, o):
        return SSet([x for x in self if s_contains(x, o)])

    __and__ = intersection

    def difference(self, o):
        return SSet([x for x in self if not s_contains(x, o)])

    __sub__ = difference

    def issubset(self, o):
        return all(s_contains(x, o) for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __eq__(self, o):
        return isinstance(o, (set, frozenset)) and len(self) == len(o) and all(s_contains(x, o) for x in self)

    def __ne__(self, o):
        return not self == o

    __hash__ = None


TYPEMAP = {int: s_int, bytes: s_bytes, bytearray: s_bytearray, str: s_str, float: s_float, bool: s_bool, memoryview: s_memoryview}
TYPEMAP_INV = {v: k for k, v in TYPEMAP.items()}


def real_class(x):
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymBytes):
        return x.KIND
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymFloat):
        return float
    return None


def s_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(s_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(s_isinstance(x, c) for c in cls.__args__)
    cls = TYPEMAP_INV.get(cls, cls)
    rc = real_class(x)
    if rc is not None:
        return issubclass(rc, cls)
    if cls is memoryview and isinstance(x, (bytes, bytearray)):
        return False
    if cls is SDatetime:
        return isinstance(x, (SDatetime, _dt.datetime))
    if cls is SDate:
        return isinstance(x, (SDate, SDatetime, _dt.date))
    if cls is STime:
        return isinstance(x, (STime, _dt.time))
    if cls is STimedelta:
        return isinstance(x, (STimedelta, _dt.timedelta))
    if cls is SUUID:
        return isinstance(x, (SUUID, _uuid.UUID))
    if cls is s_range:
        return isinstance(x, (s_range, range))
    return isinstance(x, cls)


class s_type_meta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            rc = real_class(x)
            if rc is None:
                rc = type(x)
                m = {_dt.datetime: SDatetime, _dt.date: SDate, _dt.time: STime, _dt.timedelta: STimedelta, _uuid.UUID: SUUID}
                if rc in m:
                    return m[rc]
            return TYPEMAP.get(rc, rc)
        return type(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, type)


class s_type(metaclass=s_type_meta):
    pass


def s_len(x):
    if isinstance(x, SymBytes):
        return x.n
    return len(x)


class s_range(metaclass=_TypeMeta):
    def __new__(cls, *a):
        a = [norm(v) for v in a]
        if all(isinstance(v, int) for v in a):
            return range(*a)
        self = object.__new__(cls)
        if len(a) == 1:
            a = [0] + a
        self.start, self.stop = a[0], a[1]
        self.step = a[2] if len(a) > 2 else 1
        if not isinstance(self.step, int):
            if self.step == 0:
                raise ValueError('range() arg 3 must not be zero')
        elif self.step == 0:
            raise ValueError('range() arg 3 must not be zero')
        return self

    def __iter__(self):
        i = self.start
        up = self.step > 0
        up = _b.bool(up)
        while (i < self.stop) if up else (i > self.stop):
            yield i
            i = i + self.step

    def length(self):
        step = self.step
        if not isinstance(step, int):
            step = concretize(step)
        d = (self.stop - self.start) if step > 0 else (self.start - self.stop)
        n = (d + abs(step) - 1) // abs(step)
        return V.smax(n, 0)

    def __len__(self):
        return concretize(self.length())

    def __bool__(self):
        return _b.bool(self.length() > 0)

    def __contains__(self, x):
        step = self.step
        if step == 1:
            return _b.bool(sand(x >= self.start, x < self.stop))
        raise Unsupported('in range with step')

    def __getitem__(self, k):
        n = self.length()
        if k < 0:
            k = k + n
        if sor(k < 0, k >= n):
            raise IndexError('range object index out of range')
        return self.start + k * self.step

    def __reversed__(self):
        n = self.length()
        k = n - 1
        while k >= 0:
            yield self.start + k * self.step
            k = k - 1


def s_contains(a, b):
    """a in b"""
    if isinstance(b, (SDict, SSet)):
        return a in b
    if isinstance(b, SymBytes):
        return V.contains(b, a)
    if isinstance(b, (bytes, bytearray)):
        if issym(a):
            return V.contains(b, a)
        return a in b
    if isinstance(b, (tuple, list)):
        if issym(a) or issym(b):
            rs = [_assoc_eq(a, x) for x in b]
            if all(isinstance(r, (bool, SymBool)) for r in rs):
                return sor(*rs)
            return any(rs)
        return a in b
    if isinstance(b, range) and isinstance(a, SymInt):
        if b.step == 1:
            return sand(a >= b.start, a < b.stop)
        if b.step > 0:
            return sand(a >= b.start, a < b.stop, (a - b.start) % b.step == 0)
        return any(a == x for x in b)
    if isinstance(b, (set, frozenset, dict, _DKEYS, _DVALS)) and issym(a):
        return _b.bool(sor(*[_assoc_eq(a, x) for x in b]))
    if isinstance(b, str) and isinstance(a, SymStr):
        return a in SymStr(V.cps_of(b))
    if isinstance(b, SymStr):
        return a in b
    return a in b


def s_getitem(o, k):
    t = type(o)
    if t is bytes or t is bytearray:
        if isinstance(k, slice):
            if isinstance(k.start, SymInt) or isinstance(k.stop, SymInt) or isinstance(k.step, SymInt):
                return V.to_sym(o)[k]
        elif isinstance(k, SymInt):
            return V.to_sym(o)[k]
    return o[k]


def callm(o, name, *a, **k):
    t = type(o)
    if (t is bytes or t is bytearray) and name != 'decode':
        if name == 'join':
            l = list(a[0])
            if any(isinstance(x, SymBytes) for x in l):
                return V.join(o, l)
            return o.join(l)
        if any(issym(x) for x in a):
            return getattr(V.to_sym(o), name)(*a, **k)
    elif t is str:
        if name == 'join':
            l = list(a[0])
            if any(isinstance(x, (SymStr, V.Text)) for x in l):
                return V.strjoin(o, l)
            return o.join(l)
        if name == 'format':
            if text_mode() or any(isinstance(x, SymStr) for x in a) or any(isinstance(x, SymStr) for x in k.values()):
                return s_format(o, a, k)
            return o.format(*a, **k)
        if any(isinstance(x, SymStr) for x in a):
            return getattr(SymStr(V.cps_of(o)), name)(*a, **k)
    return getattr(o, name)(*a, **k)


def s_format(o, a, k):
    import string
    out = ''
    i = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        out = out + lit
        if field is None:
            continue
        if field == '':
            v = a[i]
            i += 1
        elif field.isdigit():
            v = a[_b.int(field)]
        elif field in k:
            v = k[field]
        else:
            if text_mode():
                raise Unsupported('format string')
            return '<fmt>'
        if text_mode():
            out = out + V.printed(repr(v) if conv == 'r' else v, spec or '')
            continue
        out = out + (v if isinstance(v, (str, SymStr)) and not spec else format(v, spec or ''))
    return out


def s_ite(c, a, b):
    """(merged value,) when both branches give integers and the harness asked for merging; else the condition."""
    if isinstance(c, SymInt):
        c = c != 0
    if isinstance(c, SymBool) and eng().merge:
        try:
            x, y = a(), b()
        except Exception:
            return _b.bool(c)
        if type(x) in (_b.int, SymInt) and type(y) in (_b.int, SymInt):
            return (sif(c, x, y),)
    return True if c else False


def s_ifexp(c, a, b):
    m = s_ite(c, a, b)
    if type(m) is _b.tuple:
        return m[0]
    return a() if m else b()


def s_not(c):
    if isinstance(c, SymInt):
        c = c != 0
    return snot(c) if isinstance(c, SymBool) else not c


def s_fstr(*parts):
    out = ''
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if text_mode():
                out = out + V.printed(repr(v) if conv == 114 else v, spec or '')
                continue
            if isinstance(v, SymStr) and not spec:
                out = out + v
            else:
                if conv == 114:
                    v = repr(v)
                out = out + format(v, spec or '')
        else:
            out = out + p
    return out


def s_strmod(o, a):
    if isinstance(o, str):
        if isinstance(a, SYM) or (isinstance(a, tuple) and any(isinstance(x, SYM) for x in a)):
            t = a if isinstance(a, tuple) else (a,)
            parts = re.split(r'(%[-#0 +]*\d*(?:\.\d+)?[a-zA-Z%])', o)
            out = ''
            i = 0
            for p in parts:
                if p.startswith('%') and len(p) > 1:
                    if p[-1] == '%':
                        out = out + '%'
                        continue
                    v = t[i]
                    i += 1
                    if text_mode():
                        if p not in ('%s', '%d'):
                            raise Unsupported('format string')
                        out = out + V.printed(v)
                        continue
                    out = out + (v if isinstance(v, (str, SymStr)) else '<sym>')
                else:
                    out = out + p
            return out
    return o % a


def s_is_bool(x, val):
    """x is True / x is False"""
    if isinstance(x, SymBool):
        return _b.bool(x) is val
    return x is val


def s_chr(x):
    if isinstance(x, SymInt):
        if sor(x < 0, x > 0x10FFFF):
            raise ValueError('chr() arg not in range(0x110000)')
        return SymStr([x])
    return chr(x)


def s_ord(x):
    if isinstance(x, SymStr):
        if len(x.cps) != 1:
            raise TypeError('ord() expected a character')
        return x.cps[0]
    if isinstance(x, SymBytes):
        if x.n != 1:
            raise TypeError('ord() expected a character')
        return x.at(0)
    return ord(x)


def s_hex(x):
    if isinstance(x, SymInt):
        if x < 0:
            neg = s_hex(-x)
            return '-' + neg
        n = 1
        while (x >> (4 * n)) > 0:
            n += 1
        ds = [(x >> (4 * i)) & 15 for i in reversed(range(n))]
        return SymStr.mk([48, 120] + [sif(d < 10, d + 48, d + 87) for d in ds])
    return hex(x)


def s_print(*a, **k):
    pass


def s_open(*a, **k):
    raise Unsupported('open()')


def s_repr(x):
    return repr(x)


def s_round(x, n=None):
    if isinstance(x, SymFloat):
        if n is not None:
            raise Unsupported('round(float, n)')
        return x.rnd()
    return round(x, n) if n is not None else round(x)


# ---- struct ------------------------------------------------------------------------------------

_SZ = {'b': (1, True), 'B': (1, False), '?': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def _fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = '@'
    f = fmt.replace(' ', '')
    if f and f[0] in '<>=!@':
        order = f[0]
        f = f[1:]
    little = order in '<=@'
    items = []
    pre = order if order != '@' else '@'
    done = ''
    for cnt, ch in re.findall(r'(\d*)([a-zA-Z?])', f):
        if ch == 's' or ch == 'p':
            n = int(cnt) if cnt else 1
            done += cnt + ch
            items.append((_struct.calcsize(pre + done) - n, 's', n))
            continue
        for _ in range(int(cnt) if cnt else 1):
            done += ch
            end = _struct.calcsize(pre + done)
            sz = _struct.calcsize(pre + ch)
            if ch == 'x':
                continue
            if ch == 'c':
                items.append((end - 1, 'c', 1))
            elif ch in _SZ:
                items.append((end - sz, ch, sz))
            else:
                raise Unsupported('struct format ' + ch)
    return _struct.calcsize(fmt), little, items


def _unpack(fmt, sb, what):
    size, little, items = _fmt(fmt)
    n = sb.n
    if n != size:
        raise _struct.error('unpack requires a buffer of %d bytes' % size)
    if not isinstance(n, int):
        sb = SymBytes(size, V.mksub(sb.node, 0, size))
    out = []
    for off, ch, sz in items:
        p = sb[off:off + sz]
        if ch in 'sc':
            out.append(SymBytes(p.n, p.node))
        elif ch == '?':
            out.append(V.int_from(p) != 0)
        else:
            out.append(V.int_from(p, little, _SZ[ch][1]))
    return tuple(out)


def st_unpack(fmt, buf):
    if isinstance(buf, SymBytes):
        return _unpack(fmt, buf, 'unpack')
    return _struct.unpack(fmt, buf)


def st_unpack_from(fmt, buffer, offset=0):
    if isinstance(buffer, SymBytes) or isinstance(offset, SymInt):
        buffer = V.to_sym(buffer)
        size = _struct.calcsize(fmt)
        if offset < 0:
            offset = offset + buffer.n
            if offset < 0:
                raise _struct.error('offset out of range')
        if buffer.n - offset < size:
            raise _struct.error('unpack_from requires a buffer')
        return _unpack(fmt, SymBytes(size, V.mksub(buffer.node, offset, size)), 'unpack_from')
    return _struct.unpack_from(fmt, buffer, offset)


def st_iter_unpack(fmt, buf):
    size = _struct.calcsize(fmt)
    buf = V.to_sym(buf)
    if buf.n % size != 0:
        raise _struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % size)
    i = 0
    while i < buf.n:
        yield _unpack(fmt, buf[i:i + size], 'iter_unpack')
        i += size


def st_pack(fmt, *args):
    if not any(issym(a) for a in args):
        return _struct.pack(fmt, *args)
    size, little, items = _fmt(fmt)
    if len(items) != len(args):
        raise _struct.error('pack expected %d items' % len(items))
    out = SymBytes(0, V.NConc(b''))
    for (off, ch, sz), a in zip(items, args):
        if out.n < off:
            out = out + b'\x00' * (off - out.n)
        if ch in 'sc':
            p = V.to_sym(a)[:sz]
            p = p + b'\x00' * (sz - p.conc_len())
        else:
            if not is_num(a):
                raise _struct.error('required argument is not an integer')
            a = norm(a)
            if isinstance(a, int):
                p = _struct.pack(('<' if little else '>') + ch, a)
            else:
                try:
                    p = V.int_to_bytes(a, sz, 'little' if little else 'big', _SZ[ch][1])
                except OverflowError:
                    raise _struct.error('argument out of range')
        out = out + p
    if out.n < size:
        out = out + b'\x00' * (size - out.n)
    return out


def st_pack_into(fmt, buffer, offset, *args):
    p = st_pack(fmt, *args)
    n = V.blen(p)
    if offset + n > V.blen(buffer):
        raise _struct.error('pack_into requires a buffer')
    buffer[offset:offset + n] = p


class StStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def unpack(self, b):
        return st_unpack(self.format, b)

    def unpack_from(self, buffer, offset=0):
        return st_unpack_from(self.format, buffer, offset)

    def iter_unpack(self, b):
        return st_iter_unpack(self.format, b)

    def pack(self, *a):
        return st_pack(self.format, *a)


# ---- datetime ----------------------------------------------------------------------------------

_DIM = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
_CUM = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
DAY = 86400 * 10 ** 6
MAXUS = 3652059 * DAY  # exclusive


def is_leap(y):
    return sand(y % 4 == 0, sor(y % 100 != 0, y % 400 == 0))


def days_before(y, m, d):
    """Ordinal - 1 of a valid date."""
    p = y - 1
    r = p * 365 + p // 4 - p // 100 + p // 400
    if isinstance(m, int):
        cum = _CUM[m]
        if m > 2:
            cum = cum + sif(is_leap(y), 1, 0)
    else:
        cum = 0
        for k in range(2, 13):
            cum = sif(m >= k, _CUM[k], cum)
        cum = cum + sif(sand(m > 2, is_leap(y)), 1, 0)
    return r + cum + d - 1


def check_date(y, m, d):
    for v in (y, m, d):
        if not is_num(v):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
    if sor(y < 1, y > 9999):
        raise ValueError('year is out of range')
    if sor(m < 1, m > 12):
        raise ValueError('month must be in 1..12')
    dim = 31
    for k in (4, 6, 9, 11):
        dim = sif(m == k, 30, dim)
    dim = sif(m == 2, sif(is_leap(y), 29, 28), dim)
    if sor(d < 1, d > dim):
        raise ValueError('day is out of range for month')


def check_time(h, mi, s, us):
    for v in (h, mi, s, us):
        if not is_num(v):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
    if sor(h < 0, h > 23):
        raise ValueError('hour must be in 0..23')
    if sor(mi < 0, mi > 59):
        raise ValueError('minute must be in 0..59')
    if sor(s < 0, s > 59):
        raise ValueError('second must be in 0..59')
    if sor(us < 0, us > 999999):
        raise ValueError('microsecond must be in 0..999999')


class _DMeta(type):
    def __instancecheck__(cls, x):
        return s_isinstance_raw(x, cls)

    def __getattr__(cls, n):
        r = getattr(cls.REAL, n)
        return r


def s_isinstance_raw(x, cls):
    return type(x) is cls


class STimedelta(metaclass=_DMeta):
    REAL = _dt.timedelta

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        args = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not any(isinstance(a, (SymInt, SymFloat, SymBool)) for a in args):
            return _dt.timedelta(*args)
        tot = 0
        for a, f in zip(args, (DAY, 10 ** 6, 1, 1000, 60 * 10 ** 6, 3600 * 10 ** 6, 7 * DAY)):
            if isinstance(a, V.SymRatio) and f == 1:
                tot = tot + a.round_even()
            elif isinstance(a, SymFloat):
                if f == 1:
                    tot = tot + a.rnd()
                    continue
                ip = SymFloat(z3.fpRoundToIntegral(z3.RTZ(), a.f))
                fr = (a - ip) * _b.float(f)
                tot = tot + ip.trunc() * f + fr.rnd()
            elif isinstance(a, float):
                if a != int(a):
                    raise Unsupported('mixed float timedelta')
                tot = tot + int(a) * f
            else:
                tot = tot + norm(a) * f
        return cls.of(tot)

    @classmethod
    def of(cls, tot):
        lim = 999999999 * DAY
        if isinstance(tot, int):
            return _dt.timedelta(microseconds=tot)
        if sor(tot < -lim, tot > lim + DAY - 1):
            raise OverflowError('days out of range')
        self = object.__new__(cls)
        self.us = tot
        return self

    @staticmethod
    def us_of(x):
        if type(x) is STimedelta:
            return x.us
        return (x.days * 86400 + x.seconds) * 10 ** 6 + x.microseconds

    def __add__(self, o):
        if type(o) in (STimedelta, _dt.timedelta):
            return STimedelta.of(self.us + STimedelta.us_of(o))
        if type(o) in (SDatetime, _dt.datetime):
            return SDatetime.of(SDatetime.us_of(o) + self.us)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) in (STimedelta, _dt.timedelta):
            return STimedelta.of(self.us - STimedelta.us_of(o))
        return NotImplemented

    def __rsub__(self, o):
        if type(o) in (STimedelta, _dt.timedelta):
            return STimedelta.of(STimedelta.us_of(o) - self.us)
        if type(o) in (SDatetime, _dt.datetime):
            return SDatetime.of(SDatetime.us_of(o) - self.us)
        return NotImplemented

    def __neg__(self):
        return STimedelta.of(-self.us)

    def __mul__(self, k):
        return STimedelta.of(self.us * k)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if type(o) in (STimedelta, _dt.timedelta):
            return self.us // STimedelta.us_of(o)
        return STimedelta.of(self.us // o)

    @property
    def days(self):
        return self.us // DAY

    @property
    def seconds(self):
        return (self.us % DAY) // 10 ** 6

    @property
    def microseconds(self):
        return self.us % 10 ** 6

    def __eq__(self, o):
        return type(o) in (STimedelta, _dt.timedelta) and self.us == STimedelta.us_of(o)

    def __hash__(self):
        raise Unsupported('hash')


_EPOCH = _dt.datetime(1, 1, 1)


class SDatetime(metaclass=_DMeta):
    REAL = _dt.datetime

    def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **kw):
        args = (year, month, day, hour, minute, second, microsecond)
        if not any(isinstance(a, (SymInt, SymBool)) for a in args):
            return _dt.datetime(*args, tzinfo=tzinfo)
        if tzinfo is not None:
            raise Unsupported('tzinfo')
        args = tuple(norm(a) for a in args)
        check_date(*args[:3])
        check_time(*args[3:])
        us = ((args[3] * 60 + args[4]) * 60 + args[5]) * 10 ** 6 + args[6]
        self = object.__new__(cls)
        self.f = args
        self.us = days_before(*args[:3]) * DAY + us
        return self

    @classmethod
    def of(cls, tot):
        if isinstance(tot, int):
            if not 0 <= tot < MAXUS:
                raise OverflowError('date value out of range')
            return _EPOCH + _dt.timedelta(microseconds=tot)
        if sor(tot < 0, tot >= MAXUS):
            raise OverflowError('date value out of range')
        self = object.__new__(cls)
        self.us = tot
        self.f = None
        return self

    @staticmethod
    def us_of(x):
        if type(x) is SDatetime:
            return x.us
        if x.tzinfo is not None:
            raise Unsupported('tzinfo')
        d = x - _EPOCH
        return (d.days * 86400 + d.seconds) * 10 ** 6 + d.microseconds

    @staticmethod
    def combine(d, t, **k):
        return SDatetime(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond)

    @staticmethod
    def utcfromtimestamp(t):
        return _dt.datetime(1970, 1, 1) + STimedelta(seconds=t)

    def __add__(self, o):
        if type(o) in (STimedelta, _dt.timedelta):
            return SDatetime.of(self.us + STimedelta.us_of(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) in (STimedelta, _dt.timedelta):
            return SDatetime.of(self.us - STimedelta.us_of(o))
        if type(o) in (SDatetime, _dt.datetime):
            return STimedelta.of(self.us - SDatetime.us_of(o))
        return NotImplemented

    def __rsub__(self, o):
        if type(o) in (SDatetime, _dt.datetime):
            return STimedelta.of(SDatetime.us_of(o) - self.us)
        return NotImplemented

    def _c(self, o):
        return type(o) in (SDatetime, _dt.datetime)

    def __eq__(self, o):
        if not self._c(o):
            return False
        if type(o) is SDatetime and self.f is not None and o.f is not None:
            return sand(*[a == b for a, b in zip(self.f, o.f)])
        return self.us == SDatetime.us_of(o)

    def __ne__(self, o):
        return snot(self == o)

    def __lt__(self, o):
        return self.us < SDatetime.us_of(o) if self._c(o) else NotImplemented

    def __le__(self, o):
        return self.us <= SDatetime.us_of(o) if self._c(o) else NotImplemented

    def __gt__(self, o):
        return self.us > SDatetime.us_of(o) if self._c(o) else NotImplemented

    def __ge__(self, o):
        return self.us >= SDatetime.us_of(o) if self._c(o) else NotImplemented

    def __hash__(self):
        raise Unsupported('hash of a symbolic datetime')

    def _fld(self, i):
        if self.f is None:
            if i == 6:
                return self.us % 10 ** 6
            if i == 5:
                return (self.us // 10 ** 6) % 60
            if i == 4:
                return (self.us // (60 * 10 ** 6)) % 60
            if i == 3:
                return (self.us // (3600 * 10 ** 6)) % 24
            raise Unsupported('calendar fields of a symbolic datetime')
        return self.f[i]

    year = property(lambda s: s._fld(0))
    month = property(lambda s: s._fld(1))
    day = property(lambda s: s._fld(2))
    hour = property(lambda s: s._fld(3))
    minute = property(lambda s: s._fld(4))
    second = property(lambda s: s._fld(5))
    microsecond = property(lambda s: s._fld(6))
    tzinfo = None

    def date(self):
        return SDate(self.year, self.month, self.day)

    def time(self):
        return STime(self.hour, self.minute, self.second, self.microsecond)

    def replace(self, **k):
        n = dict(zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'), [None] * 7))
        if set(k) == {'microsecond'} and self.f is None:
            return SDatetime.of(self.us - self.us % 10 ** 6 + k['microsecond'])
        f = {x: getattr(self, x) for x in n}
        f.update(k)
        return SDatetime(**f)

    SYMTIME = True

    def strftime(self, f):
        return V.Text([(self, f)]) if text_mode() else '<datetime>'

    def isoformat(self, *a):
        return '<datetime>'

    def __format__(self, s):
        return '<datetime>'


class SDate(metaclass=_DMeta):
    REAL = _dt.date

    def __new__(cls, year, month=None, day=None):
        args = (year, month, day)
        if not any(isinstance(a, (SymInt, SymBool)) for a in args):
            return _dt.date(*args)
        args = tuple(norm(a) for a in args)
        check_date(*args)
        self = object.__new__(cls)
        self.f = args
        return self

    year = property(lambda s: s.f[0])
    month = property(lambda s: s.f[1])
    day = property(lambda s: s.f[2])

    @staticmethod
    def fl(x):
        return (x.year, x.month, x.day)

    def __eq__(self, o):
        if type(o) not in (SDate, _dt.date):
            return False
        return sand(*[a == b for a, b in zip(self.f, SDate.fl(o))])

    def __ne__(self, o):
        return snot(self == o)

    def __lt__(self, o):
        return V.lex_lt(list(self.f), list(SDate.fl(o)))

    def __gt__(self, o):
        return V.lex_lt(list(SDate.fl(o)), list(self.f))

    def __le__(self, o):
        return snot(self > o)

    def __ge__(self, o):
        return snot(self < o)

    def __hash__(self):
        raise Unsupported('hash of a symbolic date')

    SYMTIME = True

    def strftime(self, f):
        return V.Text([(self, f)]) if text_mode() else '<date>'

    def __format__(self, s):
        return '<date>'


class STime(metaclass=_DMeta):
    REAL = _dt.time

    def __new__(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        args = (hour, minute, second, microsecond)
        if not any(isinstance(a, (SymInt, SymBool)) for a in args):
            return _dt.time(*args)
        args = tuple(norm(a) for a in args)
        check_time(*args)
        self = object.__new__(cls)
        self.f = args
        return self

    hour = property(lambda s: s.f[0])
    minute = property(lambda s: s.f[1])
    second = property(lambda s: s.f[2])
    microsecond = property(lambda s: s.f[3])

    @staticmethod
    def fl(x):
        return (x.hour, x.minute, x.second, x.microsecond)

    def __eq__(self, o):
        if type(o) not in (STime, _dt.time):
            return False
        return sand(*[a == b for a, b in zip(self.f, STime.fl(o))])

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        raise Unsupported('hash of a symbolic time')

    def __format__(self, s):
        return '<time>'


# ---- uuid --------------------------------------------------------------------------------------

class SUUID(metaclass=_DMeta):
    SYMUUID = True
    REAL = _uuid.UUID

    def __new__(cls, hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None, **k):
        src = bytes_le if bytes_le is not None else bytes
        if not isinstance(src, SymBytes):
            return _uuid.UUID(hex=hex, bytes=bytes, bytes_le=bytes_le, fields=fields, int=int, version=version)
        if src.n != 16:
            raise ValueError('bytes is not a 16-char string')
        if isinstance(src, SymByteArray):
            raise AssertionError('bytearray')
        l = [src.node.at(i) for i in range(16)]
        if bytes_le is not None:
            l = l[3::-1] + l[5:3:-1] + l[7:5:-1] + l[8:]
        if all(isinstance(x, _b.int) for x in l):
            return _uuid.UUID(bytes=_b.bytes(l))
        self = object.__new__(cls)
        self.l = l
        return self

    @property
    def bytes(self):
        return SymBytes(16, V.NList(self.l))

    @property
    def bytes_le(self):
        l = self.l
        return SymBytes(16, V.NList(l[3::-1] + l[5:3:-1] + l[7:5:-1] + l[8:]))

    @property
    def int(self):
        return V.int_from(self.bytes, False)

    @property
    def time_low(self):
        return self.int >> 96

    @property
    def time_mid(self):
        return (self.int >> 80) & 0xffff

    @property
    def time_hi_version(self):
        return (self.int >> 64) & 0xffff

    @property
    def clock_seq_hi_variant(self):
        return (self.int >> 56) & 0xff

    @property
    def clock_seq_low(self):
        return (self.int >> 48) & 0xff

    @property
    def clock_seq(self):
        return ((self.clock_seq_hi_variant & 0x3f) << 8) | self.clock_seq_low

    @property
    def time(self):
        return ((self.time_hi_version & 0x0fff) << 48) | (self.time_mid << 32) | self.time_low

    @property
    def node(self):
        return self.int & 0xffffffffffff

    @property
    def fields(self):
        return (self.time_low, self.time_mid, self.time_hi_version, self.clock_seq_hi_variant, self.clock_seq_low, self.node)

    @property
    def variant(self):
        i = self.int
        if not (i & (0x8000 << 48)):
            return _uuid.RESERVED_NCS
        if not (i & (0x4000 << 48)):
            return _uuid.RFC_4122
        if not (i & (0x2000 << 48)):
            return _uuid.RESERVED_MICROSOFT
        return _uuid.RESERVED_FUTURE

    @property
    def version(self):
        if self.variant == _uuid.RFC_4122:
            return (self.int >> 76) & 0xf

    @property
    def hex(self):
        return SymStr([V.byte_to_int(x) for x in self.l])

    def __eq__(self, o):
        if type(o) is SUUID:
            return self.bytes == o.bytes
        if isinstance(o, _uuid.UUID):
            return self.bytes == o.bytes
        return False

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return hash(self.bytes.concretize())

    def __str__(self):
        return '<uuid>'

    __repr__ = __str__

    def __format__(self, s):
        return '<uuid>'


# ---- crc ---------------------------------------------------------------------------------------

def s_crc32(data, value=0):
    if not isinstance(data, SymBytes):
        return _binascii.crc32(data, value)
    c = data.is_concrete()
    if c is not None and isinstance(value, int):
        return _binascii.crc32(c, value)
    l = [V.b8term(x) for x in data.blist()]
    if not l:
        return value
    t = z3.Concat(*l) if len(l) > 1 else l[0]
    if isinstance(value, int):
        v = z3.BitVecVal(value, 32)
    else:
        v = ext(value, 33)
        v = z3.Extract(31, 0, v)
    f = z3.Function('crc32_%d' % len(l), z3.BitVecSort(8 * len(l)), z3.BitVecSort(32), z3.BitVecSort(32))
    return mkunsigned(f(t, v))


# ---- ctypes ------------------------------------------------------------------------------------

def _cint(bits, signed):
    class C:
        def __init__(self, v=0):
            v = norm(v)
            m = v & ((1 << bits) - 1)
            if signed:
                m = sif(m >= (1 << (bits - 1)), m - (1 << bits), m)
            self.value = m
    return C


# ---- module namespaces -------------------------------------------------------------------------

def mkmod(name, real=None, **k):
    m = types.ModuleType(name)
    if real is not None:
        m.__dict__.update({a: b for a, b in real.__dict__.items() if not a.startswith('__')})
    m.__dict__.update(k)
    return m


def s_copyfileobj(src, dst, length=0):
    dst.write(src.read())


class SByteIO(SymFile):
    pass


def build_modules():
    import io, shutil, ctypes, collections, warnings, zlib
    return {
        'struct': mkmod('struct', _struct, unpack=st_unpack, unpack_from=st_unpack_from, iter_unpack=st_iter_unpack, pack=st_pack, pack_into=st_pack_into, Struct=StStruct),
        'datetime': mkmod('datetime', _dt, datetime=SDatetime, date=SDate, time=STime, timedelta=STimedelta),
        'uuid': mkmod('uuid', _uuid, UUID=SUUID),
        'binascii': mkmod('binascii', _binascii, crc32=s_crc32),
        'zlib': mkmod('zlib', zlib, crc32=s_crc32),
        'io': mkmod('io', io, BytesIO=SByteIO),
        'shutil': mkmod('shutil', shutil, copyfileobj=s_copyfileobj),
        'ctypes': mkmod('ctypes', None, **{'c_%s%d' % (('u' if not s else '') + 'int', n): _cint(n, s) for n in (8, 16, 32, 64) for s in (True, False)}, c_ubyte=_cint(8, False), c_byte=_cint(8, True), c_ushort=_cint(16, False), c_short=_cint(16, True), c_ulong=_cint(64, False), c_uint=_cint(32, False), c_int=_cint(32, True)),
        'collections': mkmod('collections', collections, OrderedDict=SOrderedDict, defaultdict=SDefaultDict),
        'warnings': mkmod('warnings', warnings, warn=s_print),
    }


def build_builtins(importer):
    d = dict(_b.__dict__)
    d.update({
        'int': s_int, 'bytes': s_bytes, 'bytearray': s_bytearray, 'str': s_str, 'float': s_float, 'bool': s_bool, 'memoryview': s_memoryview,
        'dict': SDict, 'set': SSet, 'isinstance': s_isinstance, 'type': s_type, 'len': s_len, 'range': s_range, 'chr': s_chr, 'ord': s_ord,
        'hex': s_hex, 'print': s_print, 'open': s_open, 'round': s_round, '__import__': importer,
        '_sx_in_': s_contains, '_sx_get_': s_getitem, '_sx_call_': callm, '_sx_fstr_': s_fstr, '_sx_mod_': s_strmod, '_sx_isb_': s_is_bool,
        '_sx_ite_': s_ite, '_sx_ifexp_': s_ifexp, '_sx_not_': s_not, '_sx_merged_': lambda c: type(c) is _b.tuple,
        '_sx_enter_': enter, '_sx_dict_': SDict, '_sx_set_': SSet,
    })
    return d


ENTERED = set()


def enter(name):
    ENTERED.add(name)
