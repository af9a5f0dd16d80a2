"""Symbolic bytes, strings and files."""
import z3
from .core import (Engine, SymAbort, Unsupported, Truncated, SymInt, SymBool, eng, pin, mkbool, mkint, mkunsigned, bexpr, snot,
                   sand, sor, sif, rng, ext, width_for, concretize, is_num, norm)

B8 = z3.BitVecSort(8)
IDXW = 64


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymBytes, SymStr))


def b8(v):
    """A byte value (int | SymInt | BitVec8) as a BitVec8 term or a Python int."""
    if isinstance(v, int):
        return v
    if isinstance(v, SymInt):
        if v.e.size() >= 8:
            t = z3.Extract(7, 0, v.e)
        else:
            t = ext(v, 8)
        return t
    return v


def b8term(v):
    if isinstance(v, int):
        return z3.BitVecVal(v, 8)
    return v


def byte_to_int(v):
    if isinstance(v, int):
        return v
    if z3.is_bv_value(v):
        return v.as_long()
    return SymInt(z3.ZeroExt(1, v), 0, 255)


def idx(i):
    """An index (int | SymInt) as a 64-bit term."""
    if isinstance(i, int):
        return z3.BitVecVal(i, IDXW)
    return ext(i, IDXW)


def eq_bytes(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    return b8term(a) == b8term(b)


# ---- nodes: functions from index to byte -------------------------------------------------------

def _tree(items, ie, lo, hi, bit):
    """Balanced ite over the bits of the index term ie; items[lo:hi]."""
    first = items[lo]
    if all((x is first) or (isinstance(x, int) and isinstance(first, int) and x == first) for x in items[lo + 1:hi]):
        return b8term(first)
    half = 1 << bit
    mid = lo + half
    if mid >= hi:
        return _tree(items, ie, lo, hi, bit - 1)
    return z3.If(z3.Extract(bit, bit, ie) == 1, _tree(items, ie, mid, hi, bit - 1), _tree(items, ie, lo, mid, bit - 1))


class NConc:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def at(self, i):
        if isinstance(i, int):
            return self.b[i] if 0 <= i < len(self.b) else 0
        if not self.b:
            return 0
        n = len(self.b)
        return _tree(list(self.b), idx(i), 0, n, max(n.bit_length() - 1, 0))


class NList:
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    def at(self, i):
        if isinstance(i, int):
            return self.l[i] if 0 <= i < len(self.l) else 0
        if not self.l:
            return 0
        n = len(self.l)
        return _tree(self.l, idx(i), 0, n, max(n.bit_length() - 1, 0))


class NRep:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def at(self, i):
        return self.v


class NArr:
    __slots__ = ('a', 'off')

    def __init__(self, a, off=0):
        self.a = a
        self.off = off

    def at(self, i):
        return self.a(idx(self.off + i))


class NSub:
    __slots__ = ('n', 'off')

    def __init__(self, n, off):
        self.n = n
        self.off = off

    def at(self, i):
        return self.n.at(self.off + i)


class NCat:
    __slots__ = ('parts',)  # [(node, len)]

    def __init__(self, parts):
        self.parts = parts

    def at(self, i):
        off = 0
        conds = []
        for k, (n, ln) in enumerate(self.parts):
            end = off + ln
            c = (i < end) if k < len(self.parts) - 1 else True
            if c is True:
                r = n.at(i - off)
                break
            if c is False:
                off = end
                continue
            conds.append((c, n.at(i - off)))
            off = end
        for c, v in reversed(conds):
            r = z3.If(c.c, b8term(v), b8term(r))
        return r


class NOvl:
    __slots__ = ('base', 'start', 'node', 'ln')

    def __init__(self, base, start, node, ln):
        self.base, self.start, self.node, self.ln = base, start, node, ln

    def at(self, i):
        c = sand(i >= self.start, i < self.start + self.ln)
        if c is True:
            return self.node.at(i - self.start)
        if c is False:
            return self.base.at(i)
        return z3.If(c.c, b8term(self.node.at(i - self.start)), b8term(self.base.at(i)))


class NMap:
    """A node given by a Python function (used by harness references)."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def at(self, i):
        return b8(self.f(i))


def mksub(node, off, ln):
    if isinstance(off, int) and off == 0 and not isinstance(node, (NConc, NList, NCat, NOvl)):
        return node
    if isinstance(off, int) and isinstance(ln, int):
        if isinstance(node, NConc):
            return NConc(node.b[off:off + ln])
        if isinstance(node, NList):
            return NList(node.l[off:off + ln])
        if isinstance(node, NCat):
            parts = []
            p = 0
            ok = True
            for n, l in node.parts:
                if not isinstance(l, int):
                    ok = False
                    break
                s, e = max(off, p), min(off + ln, p + l)
                if s < e:
                    parts.append((mksub(n, s - p, e - s), e - s))
                p += l
            if ok:
                if not parts:
                    return NConc(b'')
                return parts[0][0] if len(parts) == 1 else NCat(parts)
        if isinstance(node, NOvl) and isinstance(node.start, int) and isinstance(node.ln, int):
            if off + ln <= node.start or off >= node.start + node.ln:
                return mksub(node.base, off, ln)
            if off >= node.start and off + ln <= node.start + node.ln:
                return mksub(node.node, off - node.start, ln)
    if isinstance(node, NRep):
        return node
    if isinstance(node, NArr):
        return NArr(node.a, node.off + off)
    if isinstance(node, NSub):
        return NSub(node.n, node.off + off)
    if isinstance(off, int) and off == 0:
        return node
    return NSub(node, off)


def node_bytes(node, n):
    """The n bytes of a node when they are all concrete (None otherwise, or when that is not cheap to tell)."""
    if isinstance(node, NConc):
        return bytes(node.b) if len(node.b) == n else None
    if isinstance(node, NRep):
        return bytes([node.v]) * n if isinstance(node.v, int) else None
    if isinstance(node, NList):
        out = bytearray()
        for v in node.l[:n]:
            if not isinstance(v, int):
                if not z3.is_bv_value(v):
                    return None
                v = v.as_long()
            out.append(v)
        return bytes(out) if len(out) == n else None
    if isinstance(node, NCat):
        out = []
        left = n
        for nd, ln in node.parts:
            if not isinstance(ln, int):
                return None
            c = node_bytes(nd, ln)
            if c is None:
                return None
            out.append(c)
        r = b''.join(out)
        return r if len(r) == n else None
    return None


def node_of(x):
    if isinstance(x, SymBytes):
        return x.node
    return NConc(bytes(x))


def blen(x):
    if isinstance(x, SymBytes):
        return x.n
    return len(x)


def to_sym(x):
    if isinstance(x, SymBytes):
        return x
    return SymBytes(len(x), NConc(bytes(x)))


def smin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    c = a <= b
    if isinstance(c, SymBool):
        c = bool(c)
    return a if c else b


def smax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    c = a >= b
    if isinstance(c, SymBool):
        c = bool(c)
    return a if c else b


def clamp(x, n, default):
    if x is None:
        return default
    if not is_num(x):
        if hasattr(x, '__index__'):
            x = x.__index__()
        else:
            raise TypeError('slice indices must be integers or None or have an __index__ method')
    x = norm(x)
    if x < 0:
        return smax(x + n, 0)
    return smin(x, n)


class SymBytes:
    """Immutable bytes; n may be symbolic.  KIND is what isinstance/type report."""
    KIND = bytes
    __slots__ = ('n', 'node', '__weakref__')

    def __init__(self, n, node):
        self.n = n
        self.node = node

    # factory preserving kind
    def _mk(self, n, node):
        return SymBytes(n, node)

    def at(self, i):
        return byte_to_int(self.node.at(i))

    def conc_len(self):
        if not isinstance(self.n, int):
            self.n = concretize(self.n)
        return self.n

    def blist(self):
        n = self.conc_len()
        return [self.node.at(i) for i in range(n)]

    def is_concrete(self):
        if not isinstance(self.n, int):
            return None
        if isinstance(self.node, NConc):
            return self.node.b
        if isinstance(self.node, (NCat, NRep, NList)):
            return node_bytes(self.node, self.n)
        if self.n > 4096 and not isinstance(self.node, (NRep, NCat, NList)):
            return None
        if isinstance(self.node, NRep) and isinstance(self.node.v, int):
            return bytes([self.node.v]) * self.n
        out = bytearray()
        for i in range(self.n):
            v = self.node.at(i)
            if not isinstance(v, int):
                if z3.is_bv_value(v):
                    v = v.as_long()
                else:
                    return None
            out.append(v)
        return bytes(out)

    def __len__(self):
        return self.conc_len()

    def __bool__(self):
        if isinstance(self.n, int):
            return self.n > 0
        return bool(self.n > 0)

    def __iter__(self):
        i = 0
        while True:
            c = i < self.n
            if not c:
                return
            yield self.at(i)
            i += 1

    def __reversed__(self):
        n = self.conc_len()
        for i in range(n - 1, -1, -1):
            yield self.at(i)

    def __getitem__(self, k):
        if isinstance(k, slice):
            step = k.step
            if step is not None and not isinstance(step, int):
                step = concretize(step)
            if step is None or step == 1:
                a = clamp(k.start, self.n, 0)
                b = clamp(k.stop, self.n, self.n)
                ln = b - a
                if not isinstance(ln, int):
                    if ln < 0:
                        ln = 0
                elif ln < 0:
                    ln = 0
                return self._mk(ln, mksub(self.node, a, ln))
            n = self.conc_len()
            return self._mk_list([self.node.at(i) for i in range(*k.indices(n))])
        if not is_num(k):
            if hasattr(k, '__index__'):
                k = k.__index__()
            else:
                raise TypeError('byte indices must be integers or slices, not %s' % type(k).__name__)
        k = norm(k)
        if k < 0:
            k = k + self.n
            if k < 0:
                raise IndexError('index out of range')
        if k >= self.n:
            raise IndexError('index out of range')
        return self.at(k)

    def _mk_list(self, l):
        return self._mk(len(l), NList(l))

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes, memoryview)):
            return NotImplemented
        return self._mk(*cat2(self, o))

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes, memoryview)):
            return NotImplemented
        n, node = cat2(o, self)
        return (SymByteArray if isinstance(o, bytearray) else SymBytes)(n, node)

    def __mul__(self, k):
        if not is_num(k):
            return NotImplemented
        return self._mk(*rep(self, k))

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes, memoryview)):
            return False
        return bytes_eq(self, o)

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __lt__(self, o):
        return lex_lt([byte_to_int(x) for x in self.blist()], [byte_to_int(x) for x in to_sym(o).blist()])

    def __gt__(self, o):
        return lex_lt([byte_to_int(x) for x in to_sym(o).blist()], [byte_to_int(x) for x in self.blist()])

    def __le__(self, o):
        return snot(self > o)

    def __ge__(self, o):
        return snot(self < o)

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self):
        c = self.is_concrete()
        if c is not None:
            return c
        n = self.conc_len()
        if n > 64:
            raise Unsupported('concretisation of a long symbolic buffer')
        return bytes(concretize(self.at(i), 8) for i in range(n))

    def __bytes__(self):
        return self.concretize()

    def __buffer__(self, flags):
        return memoryview(self.concretize())

    def __contains__(self, x):
        return contains(self, x)

    def __repr__(self):
        return '<symbytes>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<symbytes>'

    # methods
    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self, encoding, errors)

    def hex(self, *a):
        c = self.is_concrete()
        if c is not None:
            return c.hex(*a)
        return SymStr([ord(ch) for ch in 'hex:']) + SymStr([byte_to_int(x) for x in self.blist()])

    def tobytes(self):
        return SymBytes(self.n, self.node)

    def cast(self, *a):
        return self

    def release(self):
        pass

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sor(*[self.startswith(q, start, end) for q in p])
        s = self if start is None and end is None else self[start:end]
        return s[:blen(p)] == p

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sor(*[self.endswith(q, start, end) for q in p])
        s = self if start is None and end is None else self[start:end]
        n = blen(p)
        if s.n < n:
            return False
        return s[s.n - n:] == p

    def _find(self, p, start, end, rev):
        if is_num(p):
            p = SymBytes(1, NList([b8(p)]))
        n = self.conc_len()
        m = to_sym(p).conc_len()
        a, b, _ = slice(start, end).indices(n)
        rngi = range(a, b - m + 1)
        for i in (reversed(rngi) if rev else rngi):
            if self[i:i + m] == p:
                return i
        return -1

    def find(self, p, start=None, end=None):
        return self._find(p, start, end, False)

    def rfind(self, p, start=None, end=None):
        return self._find(p, start, end, True)

    def index(self, p, start=None, end=None):
        r = self._find(p, start, end, False)
        if r == -1:
            raise ValueError('subsection not found')
        return r

    def count(self, p, start=None, end=None):
        if is_num(p):
            p = SymBytes(1, NList([b8(p)]))
        m = to_sym(p).conc_len()
        s = self[start:end]
        n = s.conc_len()
        if m == 1:
            r = 0
            for i in range(n):
                r = r + sif(s.at(i) == to_sym(p).at(0), 1, 0)
            return r
        i = r = 0
        while i + m <= n:
            if s[i:i + m] == p:
                r += 1
                i += m
            else:
                i += 1
        return r

    def _strip(self, chars, left, right):
        if chars is None:
            chars = b' \t\n\r\x0b\f'
        n = self.conc_len()
        a, b = 0, n

        def isin(v):
            return bool(sor(*[v == c for c in list(chars)]))
        if left:
            while a < b and isin(self.at(a)):
                a += 1
        if right:
            while b > a and isin(self.at(b - 1)):
                b -= 1
        return self[a:b]

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        """One value with a symbolic start, so that the caller's comparison decides (no fork per byte)."""
        if chars is None:
            chars = b' \t\n\r\x0b\f'
        if not isinstance(chars, bytes):
            return self._strip(chars, True, False)
        n = self.conc_len()
        a = 0
        parts = self.node.parts if isinstance(self.node, NCat) and all(isinstance(l, int) for _, l in self.node.parts) else [(self.node, n)]
        for nd, ln in parts:
            c = node_bytes(nd, ln)
            if c is None:
                break
            k = len(c) - len(c.lstrip(chars))
            a += k
            if k < ln:
                return self[a:]
        if a >= n:
            return self[n:]
        conds = []
        stop = n
        for i in range(a, n):
            v = self.at(i)
            c = sor(*[v == x for x in chars])
            if c is False:
                stop = i
                break
            conds.append(c)
            if len(conds) > 600:
                return self[a:]._strip(chars, True, False)
        st = stop
        for i in reversed(range(len(conds))):
            st = sif(conds[i], st, a + i)
        if isinstance(st, int):
            return self[st:]
        return self._mk(n - st, mksub(self.node, st, n - st))

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def ljust(self, width, fill=b' '):
        if self.n >= width:
            return self
        return self + fill * (width - self.n)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('bytes.split()')
        m = to_sym(sep).conc_len()
        n = self.conc_len()
        out, last, i = [], 0, 0
        while i + m <= n and (maxsplit < 0 or len(out) < maxsplit):
            if self[i:i + m] == sep:
                out.append(self[last:i])
                i += m
                last = i
            else:
                i += 1
        out.append(self[last:])
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, b'', b''
        return self[:i], sep, self[i + blen(sep):]

    def replace(self, a, b, count=-1):
        parts = self.split(a, count)
        return join(b, parts)

    def join(self, it):
        return join(self, it)

    def upper(self):
        return self._mk_list([b8(sif(sand(v >= 97, v <= 122), v - 32, v)) for v in map(byte_to_int, self.blist())])

    def lower(self):
        return self._mk_list([b8(sif(sand(v >= 65, v <= 90), v + 32, v)) for v in map(byte_to_int, self.blist())])

    def isascii(self):
        return sand(*[v < 128 for v in map(byte_to_int, self.blist())])

    def translate(self, table, delete=b''):
        if delete:
            raise Unsupported('bytes.translate(delete)')
        t = to_sym(table)
        return self._mk_list([t.node.at(v) for v in map(byte_to_int, self.blist())])

    def copy(self):
        return self._mk(self.n, self.node)


def cat2(a, b):
    na, nb = blen(a), blen(b)
    if isinstance(nb, int) and nb == 0:
        return na, node_of(a)
    if isinstance(na, int) and na == 0:
        return nb, node_of(b)
    A, B = node_of(a), node_of(b)
    pa = A.parts if isinstance(A, NCat) else [(A, na)]
    pb = B.parts if isinstance(B, NCat) else [(B, nb)]
    # A Cat node may be longer than its SymBytes (slice with the last part cut): only reuse the parts when they add up
    if isinstance(A, NCat):
        t = 0
        for _, l in pa:
            t = t + l
        if not (isinstance(t, int) and isinstance(na, int) and t == na) and t is not na:
            pa = [(A, na)]
    if isinstance(B, NCat):
        t = 0
        for _, l in pb:
            t = t + l
        if not (isinstance(t, int) and isinstance(nb, int) and t == nb) and t is not nb:
            pb = [(B, nb)]
    parts = list(pa) + list(pb)
    merged = [parts[0]]
    for n, l in parts[1:]:
        pn, pl = merged[-1]
        if isinstance(pl, int) and isinstance(l, int):
            if isinstance(pn, NConc) and isinstance(n, NConc) and len(pn.b) == pl and len(n.b) == l:
                merged[-1] = (NConc(pn.b + n.b), pl + l)
                continue
            if isinstance(pn, NRep) and isinstance(n, NRep) and isinstance(pn.v, int) and pn.v == n.v:
                merged[-1] = (pn, pl + l)
                continue
        merged.append((n, l))
    node = merged[0][0] if len(merged) == 1 else NCat(merged)
    return na + nb, node


def rep(x, k):
    k = norm(k)
    s = to_sym(x)
    if isinstance(k, int):
        if k <= 0:
            return 0, NConc(b'')
        if isinstance(s.n, int) and s.n == 1:
            v = s.node.at(0)
            if k > 64 or not isinstance(v, int):
                return k, NRep(v)
        if isinstance(s.node, NConc) and isinstance(s.n, int) and s.n * k < 1 << 20:
            return s.n * k, NConc(s.node.b * k)
        n, node = 0, NConc(b'')
        acc = SymBytes(0, NConc(b''))
        for _ in range(k):
            acc = acc + s
        return acc.n, acc.node
    n = s.conc_len()
    if n == 0:
        return 0, NConc(b'')
    if k <= 0:
        return 0, NConc(b'')
    if n == 1:
        return k, NRep(s.node.at(0))
    c = s.is_concrete()
    if c is not None and len(set(c)) == 1:
        return k * n, NRep(c[0])
    base = s.node
    return k * n, NMap(lambda i: byte_to_int(base.at(i % n)))


def bytes_eq(a, b):
    na, nb = blen(a), blen(b)
    c = na == nb
    if isinstance(c, SymBool):
        if not c:
            return False
    elif not c:
        return False
    n = na if isinstance(na, int) else nb
    A, B = node_of(a), node_of(b)
    if not isinstance(n, int):
        if A is B:
            return True
        n = concretize(n)
    cs = []
    for i in range(n):
        x, y = A.at(i), B.at(i)
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
            continue
        x, y = b8term(x), b8term(y)
        if x.eq(y):
            continue
        cs.append(x == y)
    if not cs:
        return True
    return mkbool(z3.And(*cs) if len(cs) > 1 else cs[0])


def lex_lt(a, b):
    r = len(a) < len(b)
    for x, y in reversed(list(zip(a, b))):
        r = sor(x < y, sand(x == y, r))
    return r


class SymByteArray(SymBytes):
    KIND = bytearray
    __slots__ = ()

    def _mk(self, n, node):
        return SymByteArray(n, node)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            step = k.step
            if step not in (None, 1):
                n = self.conc_len()
                ix = list(range(*k.indices(n)))
                v = to_sym(v)
                if len(ix) != len(v):
                    raise ValueError('attempt to assign bytes of size %d to extended slice of size %d' % (len(v), len(ix)))
                for p, i in enumerate(ix):
                    self[i] = v.at(p)
                return
            a = clamp(k.start, self.n, 0)
            b = clamp(k.stop, self.n, self.n)
            if is_num(v):
                raise TypeError("can't assign an int to a slice")
            if not isinstance(v, (bytes, bytearray, SymBytes, memoryview)):
                v = mkbytes(v)
            ln = b - a
            if ln < 0:
                ln = 0
                b = a
            vn = blen(v)
            if vn == ln:
                if isinstance(a, int) and isinstance(vn, int) and isinstance(self.n, int):
                    self._set_conc(a, node_of(v), vn)
                else:
                    self.node = NOvl(self.node, a, node_of(v), vn)
                return
            left = SymBytes(a, mksub(self.node, 0, a))
            right = SymBytes(self.n - b, mksub(self.node, b, self.n - b))
            r = left + v + right
            self.n, self.node = r.n, r.node
            return
        k = norm(k)
        if not is_num(k):
            raise TypeError('bytearray indices must be integers or slices')
        if k < 0:
            k = k + self.n
            if k < 0:
                raise IndexError('bytearray index out of range')
        if k >= self.n:
            raise IndexError('bytearray index out of range')
        v = norm(v)
        if not is_num(v):
            raise TypeError("an integer is required")
        if sor(v < 0, v > 255):
            raise ValueError('byte must be in range(0, 256)')
        if isinstance(k, int) and isinstance(self.n, int):
            self._set_conc(k, NList([b8(v)]), 1)
        else:
            self.node = NOvl(self.node, k, NList([b8(v)]), 1)

    def _set_conc(self, a, node, ln):
        if ln == 0:
            return
        if self.n <= 8192 and (isinstance(self.node, (NList, NConc)) or self.n <= 64 or (isinstance(self.node, NRep) and self.n <= 1024)):
            if not isinstance(self.node, NList) or len(self.node.l) != self.n:
                self.node = NList([self.node.at(i) for i in range(self.n)])
            l = list(self.node.l)
            for i in range(ln):
                l[a + i] = node.at(i)
            self.node = NList(l)
        else:
            self.node = NOvl(self.node, a, node, ln)

    def __delitem__(self, k):
        if not isinstance(k, slice):
            k = slice(k, k + 1)
        self[k] = b''

    def __iadd__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes, memoryview)):
            o = mkbytes(o)
        self.n, self.node = cat2(self, o)
        return self

    def extend(self, o):
        self.__iadd__(o)

    def append(self, v):
        if sor(v < 0, v > 255):
            raise ValueError('byte must be in range(0, 256)')
        self.n, self.node = cat2(self, SymBytes(1, NList([b8(v)])))

    def reverse(self):
        l = self.blist()
        l.reverse()
        self.n, self.node = len(l), NList(l)

    def clear(self):
        self.n, self.node = 0, NConc(b'')

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")


def mkbytes(x, cls=SymBytes):
    """bytes(x)/bytearray(x)."""
    if isinstance(x, SymBytes):
        return cls(x.n, x.node)
    if isinstance(x, (bytes, bytearray, memoryview)):
        b = bytes(x)
        return cls(len(b), NConc(b))
    if is_num(x):
        x = norm(x)
        if x < 0:
            raise ValueError('negative count')
        return cls(x, NRep(0))
    if isinstance(x, str):
        raise TypeError('string argument without an encoding')
    if isinstance(x, SymStr):
        raise TypeError('string argument without an encoding')
    if hasattr(x, '__bytes__'):
        return mkbytes(x.__bytes__(), cls)
    l = []
    for v in x:
        v = norm(v)
        if not is_num(v):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
        if sor(v < 0, v > 255):
            raise ValueError('bytes must be in range(0, 256)')
        l.append(b8(v))
    if all(isinstance(v, int) for v in l):
        return cls(len(l), NConc(bytes(l)))
    return cls(len(l), NList(l))


def join(sep, it):
    acc = None
    for p in it:
        if not isinstance(p, (bytes, bytearray, SymBytes, memoryview)):
            raise TypeError('sequence item: expected a bytes-like object, %s found' % type(p).__name__)
        if acc is None:
            acc = mkbytes(p)
        else:
            if blen(sep) != 0:
                acc = acc + sep
            acc = acc + p
    if acc is None:
        return b''
    return acc


def contains(container, x):
    """x in bytes-like."""
    if is_num(x):
        l = to_sym(container).blist()
        return sor(*[byte_to_int(v) == x for v in l])
    m = to_sym(x).conc_len()
    s = to_sym(container)
    n = s.conc_len()
    return sor(*[s[i:i + m] == x for i in range(0, n - m + 1)]) if n >= m else False


# ---- integers <-> bytes ------------------------------------------------------------------------

def int_from(sb, little=True, signed=False):
    l = sb.blist()
    if not l:
        return 0
    if little:
        l = l[::-1]
    if all(isinstance(v, int) for v in l):
        return int.from_bytes(bytes(l), 'big', signed=signed)
    terms = [b8term(v) for v in l]
    e = z3.Concat(*terms) if len(terms) > 1 else terms[0]
    n = 8 * len(l)
    if signed:
        return mkint(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    # leading concrete zero bytes narrow the interval
    k = 0
    while k < len(l) - 1 and isinstance(l[k], int) and l[k] == 0:
        k += 1
    if k:
        e = z3.Concat(*terms[k:]) if len(terms) - k > 1 else terms[k]
    return mkunsigned(e)


def int_to_bytes(x, length, byteorder, signed):
    length = concretize(length)
    n = 8 * length
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
    if sor(x < lo, x > hi):
        raise OverflowError('int too big to convert')
    e = ext(x, max(n, 1))if rng(x)[0] < 0 or x.e.size() >= n else z3.ZeroExt(n - x.e.size(), x.e)
    l = [z3.Extract(8 * i + 7, 8 * i, e) for i in range(length)]
    if byteorder == 'big':
        l.reverse()
    return SymBytes(length, NList(l))


# ---- text --------------------------------------------------------------------------------------

WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0]
_UP = z3.Function('upper_na', z3.BitVecSort(24), z3.BitVecSort(24))
_LOW = z3.Function('lower_na', z3.BitVecSort(24), z3.BitVecSort(24))


def cps_of(s):
    if isinstance(s, SymStr):
        return s.cps
    return [ord(c) for c in s]


class SymStr:
    """Text of concrete length over (possibly symbolic) code points."""
    __slots__ = ('cps',)

    def __init__(self, cps):
        self.cps = list(cps)

    @staticmethod
    def mk(cps):
        if all(isinstance(c, int) for c in cps):
            return ''.join(map(chr, cps))
        return SymStr(cps)

    def __len__(self):
        return len(self.cps)

    def __bool__(self):
        return len(self.cps) > 0

    def __iter__(self):
        for c in self.cps:
            yield SymStr.mk([c])

    def __getitem__(self, k):
        if isinstance(k, slice):
            f = [None if v is None else concretize(norm(v)) for v in (k.start, k.stop, k.step)]
            return SymStr.mk(self.cps[slice(*f)])
        return SymStr.mk([self.cps[concretize(norm(k))]])

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr.mk(self.cps + cps_of(o))

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr.mk(cps_of(o) + self.cps)

    def __mul__(self, k):
        return SymStr.mk(self.cps * concretize(k))

    __rmul__ = __mul__

    def __mod__(self, o):
        return '<fmt>'

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        b = cps_of(o)
        if len(b) != len(self.cps):
            return False
        return sand(*[x == y for x, y in zip(self.cps, b)])

    def __ne__(self, o):
        return snot(self == o)

    def __lt__(self, o):
        return lex_lt(self.cps, cps_of(o))

    def __gt__(self, o):
        return lex_lt(cps_of(o), self.cps)

    def __le__(self, o):
        return snot(self > o)

    def __ge__(self, o):
        return snot(self < o)

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self):
        return ''.join(chr(concretize(c, 8)) for c in self.cps)

    def __str__(self):
        return '<symstr>'

    __repr__ = __str__

    def __format__(self, spec):
        return '<symstr>'

    def __contains__(self, x):
        x = cps_of(x)
        m = len(x)
        n = len(self.cps)
        return bool(sor(*[sand(*[self.cps[i + j] == x[j] for j in range(m)]) for i in range(n - m + 1)]))

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self, encoding, errors)

    def join(self, it):
        return strjoin(self, it)

    def _strip(self, chars, left, right):
        cs = WS if chars is None else cps_of(chars)
        a, b = 0, len(self.cps)

        def isin(v):
            return bool(sor(*[v == c for c in cs]))
        if left:
            while a < b and isin(self.cps[a]):
                a += 1
        if right:
            while b > a and isin(self.cps[b - 1]):
                b -= 1
        return SymStr.mk(self.cps[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sor(*[self.startswith(q, start, end) for q in p])
        x = cps_of(p)
        s = self.cps[start:end]
        if len(x) > len(s):
            return False
        return sand(*[a == b for a, b in zip(s, x)])

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sor(*[self.endswith(q, start, end) for q in p])
        x = cps_of(p)
        s = self.cps[start:end]
        if len(x) > len(s):
            return False
        if not x:
            return True
        return sand(*[a == b for a, b in zip(s[-len(x):], x)])

    def _find(self, p, start, end, rev):
        x = cps_of(p)
        m = len(x)
        a, b, _ = slice(start, end).indices(len(self.cps))
        r = range(a, b - m + 1)
        for i in (reversed(r) if rev else r):
            if sand(*[self.cps[i + j] == x[j] for j in range(m)]):
                return i
        return -1

    def find(self, p, start=None, end=None):
        return self._find(p, start, end, False)

    def rfind(self, p, start=None, end=None):
        return self._find(p, start, end, True)

    def index(self, p, start=None, end=None):
        r = self.find(p, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, p):
        x = cps_of(p)
        if len(x) != 1:
            raise Unsupported('str.count')
        r = 0
        for c in self.cps:
            r = r + sif(c == x[0], 1, 0)
        return r

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('str.split()')
        x = cps_of(sep)
        m, n = len(x), len(self.cps)
        out, last, i = [], 0, 0
        while i + m <= n and (maxsplit < 0 or len(out) < maxsplit):
            if sand(*[self.cps[i + j] == x[j] for j in range(m)]):
                out.append(SymStr.mk(self.cps[last:i]))
                i += m
                last = i
            else:
                i += 1
        out.append(SymStr.mk(self.cps[last:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(cps_of(sep)):]

    def replace(self, a, b, count=-1):
        return strjoin(b, self.split(a, count))

    def _case(self, f, alo, ahi, d):
        out = []
        for c in self.cps:
            if isinstance(c, int):
                t = getattr(chr(c), f)()
                out.extend(ord(x) for x in t)
                continue
            if c < 128:
                out.append(sif(sand(c >= alo, c <= ahi), c + d, c))
            else:
                fn = _UP if f == 'upper' else _LOW
                out.append(mkunsigned(fn(ext(c, 24))))
        return SymStr.mk(out)

    def upper(self):
        return self._case('upper', 97, 122, -32)

    def lower(self):
        return self._case('lower', 65, 90, 32)

    casefold = lower

    def isascii(self):
        return sand(*[c < 128 for c in self.cps])

    def format(self, *a, **k):
        return '<fmt>'

    def ljust(self, w, fill=' '):
        return self + fill * (concretize(w) - len(self.cps))

    def zfill(self, w):
        return ('0' * (w - len(self.cps))) + self


def strjoin(sep, it):
    acc = None
    for p in it:
        if not isinstance(p, (str, SymStr, Text)):
            raise TypeError('sequence item: expected str instance, %s found' % type(p).__name__)
        acc = p if acc is None else acc + sep + p
    return '' if acc is None else acc


def _codec(encoding):
    return encoding.lower().replace('-', '').replace('_', '')


def decode(sb, encoding, errors):
    c = sb.is_concrete()
    if c is not None:
        return c.decode(encoding, errors)
    e = _codec(encoding)
    n = sb.conc_len()

    def err(i, reason):
        raise UnicodeDecodeError(encoding, b'?' * max(n, 1), min(i, max(n - 1, 0)), min(i + 1, max(n, 1)), reason)
    if e in ('utf16le', 'utf16'):
        if e == 'utf16':
            raise Unsupported('utf-16 with BOM')
        out = []
        i = 0
        while i + 2 <= n:
            u = int_from(sb[i:i + 2])
            i += 2
            if sor(u < 0xD800, u > 0xDFFF):
                out.append(u)
                continue
            if u <= 0xDBFF:
                if i + 2 <= n:
                    v = int_from(sb[i:i + 2])
                    if sand(v >= 0xDC00, v <= 0xDFFF):
                        i += 2
                        out.append(((u & 0x3FF) << 10) + (v & 0x3FF) + 0x10000)
                        continue
                    if errors == 'strict':
                        err(i - 2, 'illegal UTF-16 surrogate')
                else:
                    if errors == 'strict':
                        err(i - 2, 'unexpected end of data')
                    i = n
            elif errors == 'strict':
                err(i - 2, 'illegal encoding')
            if errors == 'replace':
                out.append(0xFFFD)
            elif errors == 'surrogatepass':
                out.append(u)
            elif errors == 'ignore':
                pass
            elif errors != 'strict':
                raise Unsupported('errors=' + errors)
        if i < n:
            if errors == 'strict':
                err(i, 'truncated data')
            if errors == 'replace':
                out.append(0xFFFD)
            elif errors == 'surrogatepass':
                err(i, 'truncated data')
        return SymStr.mk(out)
    if e in ('latin1', 'iso88591'):
        return SymStr.mk([byte_to_int(v) for v in sb.blist()])
    if e in ('ascii', 'usascii', 'utf8'):
        out = []
        for i, v in enumerate(map(byte_to_int, sb.blist())):
            if v < 128:
                out.append(v)
                continue
            if e == 'utf8':
                raise Unsupported('utf-8 multibyte')
            if errors == 'strict':
                err(i, 'ordinal not in range(128)')
            if errors == 'replace':
                out.append(0xFFFD)
            elif errors == 'surrogateescape':
                out.append(v + 0xDC00)
            elif errors == 'ignore':
                pass
            else:
                raise Unsupported('errors=' + errors)
        return SymStr.mk(out)
    # single-byte code pages: table lookup through Python's own codec (bytes that have no character are decided first)
    table = []
    for k in range(256):
        try:
            table.append(bytes([k]).decode(encoding, 'strict'))
        except UnicodeDecodeError:
            table.append(None)
    if any(t is not None and len(t) != 1 for t in table) or len([t for t in table if t is None]) > 64:
        raise Unsupported('codec ' + encoding)
    undefined = [k for k in range(256) if table[k] is None]
    if undefined:
        if errors != 'strict':
            raise Unsupported('codec %s, errors=%s' % (encoding, errors))
        for i, v in enumerate(map(byte_to_int, sb.blist())):
            if sor(*[v == k for k in undefined]):
                err(i, 'character maps to <undefined>')
        table = [t if t is not None else '\0' for t in table]
    hi = [ord(t) for t in table]
    out = []
    for v in map(byte_to_int, sb.blist()):
        if isinstance(v, int):
            out.append(hi[v])
            continue
        r = v if hi[:128] == list(range(128)) else None
        base = range(128, 256) if r is not None else range(256)
        if r is None:
            r = hi[0]
        for k in base:
            r = sif(v == k, hi[k], r)
        out.append(r)
    return SymStr.mk(out)


def encode(s, encoding, errors):
    cps = cps_of(s)
    e = _codec(encoding)
    l = []
    for c in cps:
        if e == 'utf16le':
            if c < 0x10000:
                if errors != 'surrogatepass' and sand(c >= 0xD800, c <= 0xDFFF):
                    raise UnicodeEncodeError(encoding, '?', 0, 1, 'surrogates not allowed')
                l += [c & 0xFF, (c >> 8) & 0xFF]
            else:
                d = c - 0x10000
                a, b = 0xD800 + (d >> 10), 0xDC00 + (d & 0x3FF)
                l += [a & 0xFF, a >> 8, b & 0xFF, b >> 8]
        elif e in ('ascii', 'latin1', 'utf8'):
            lim = 256 if e == 'latin1' else 128
            if c < lim:
                l.append(c)
            elif e == 'utf8':
                raise Unsupported('utf-8 encode')
            elif errors == 'replace':
                l.append(63)
            else:
                raise UnicodeEncodeError(encoding, '?', 0, 1, 'ordinal not in range')
        else:
            raise Unsupported('encode ' + encoding)
    return mkbytes(l)


# ---- floats ------------------------------------------------------------------------------------

FP = z3.Float64()
RNE = z3.RNE()


class SymFloat:
    """IEEE double."""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    @staticmethod
    def of(x):
        if isinstance(x, SymFloat):
            return x.f
        if isinstance(x, float):
            return z3.FPVal(x, FP)
        if isinstance(x, int):
            return z3.FPVal(float(x), FP)
        if isinstance(x, SymInt):
            if x.e.size() > 80:
                raise Unsupported('wide int to float')
            return z3.fpSignedToFP(RNE, x.e, FP)
        raise Unsupported('float of %s' % type(x).__name__)

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __mul__(self, o):
        return SymFloat(z3.fpMul(RNE, self.f, SymFloat.of(o)))

    __rmul__ = __mul__

    def __add__(self, o):
        return SymFloat(z3.fpAdd(RNE, self.f, SymFloat.of(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return SymFloat(z3.fpSub(RNE, self.f, SymFloat.of(o)))

    def __rsub__(self, o):
        return SymFloat(z3.fpSub(RNE, SymFloat.of(o), self.f))

    def __lt__(self, o):
        return mkbool(z3.fpLT(self.f, SymFloat.of(o)))

    def __le__(self, o):
        return mkbool(z3.fpLEQ(self.f, SymFloat.of(o)))

    def __gt__(self, o):
        return mkbool(z3.fpGT(self.f, SymFloat.of(o)))

    def __ge__(self, o):
        return mkbool(z3.fpGEQ(self.f, SymFloat.of(o)))

    def __eq__(self, o):
        if not isinstance(o, (int, float, SymInt, SymFloat)):
            return False
        return mkbool(z3.fpEQ(self.f, SymFloat.of(o)))

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        raise Unsupported('hash of float')

    def __float__(self):
        raise Unsupported('float boundary')

    def toint(self, mode):
        """Rounded to an int of at most 70 bits (the harness ranges guarantee it fits)."""
        e = z3.fpToSBV(mode, self.f, z3.BitVecSort(80))
        return SymInt(e, -(1 << 79), (1 << 79) - 1)

    def trunc(self):
        return self.toint(z3.RTZ())

    def rnd(self):
        return self.toint(RNE)

    def __format__(self, spec):
        return '<symfloat>'


def truediv(a, b):
    a, b = norm(a), norm(b)
    if isinstance(b, (int, SymInt)):
        if b == 0:
            raise ZeroDivisionError('division by zero')
    if isinstance(a, SymInt) and isinstance(b, int) and b > 0 and a.lo >= 0:
        return SymRatio(a, b)
    return SymFloat(z3.fpDiv(RNE, SymFloat.of(a), SymFloat.of(b)))


def rhe(a, b):
    """a / b (a >= 0, b a positive constant) rounded half to even, as an integer."""
    if b == 1:
        return a
    q, r = divmod(a, b)
    up = sor(2 * r > b, sand(2 * r == b, q % 2 == 1))
    return q + sif(up, 1, 0)


class SymRatio(SymFloat):
    """int / int true division: the correctly rounded double of an exact ratio of integers."""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    @property
    def f(self):
        if self.a.hi > (1 << 53):
            raise Unsupported('float operation on the ratio of large integers')
        return z3.fpDiv(RNE, z3.fpSignedToFP(RNE, self.a.e, FP), z3.FPVal(float(self.b), FP))

    def round_even(self):
        """The double rounded half to even to an integer (what timedelta does with it)."""
        a, b = self.a, self.b
        safe = 1  # below b * 2**(52-safe) the double is within 2**-(safe+1) of the ratio, too close to change the rounding of a multiple of 1/b
        while (1 << (safe + 1)) <= 2 * b:
            safe += 1
        if a < b << (52 - safe):
            return rhe(a, b)
        k = safe
        while not (a < b << (53 - k)):
            k -= 1
        if k >= 0:
            m = rhe(a * (1 << k), b)
            return rhe(m, 1 << k)
        return rhe(a, b << -k) * (1 << -k)


# ---- files -------------------------------------------------------------------------------------

class SymFile:
    """A read/write binary file of (possibly symbolic) size, positioned anywhere."""

    def __init__(self, content=b'', mode='rb'):
        self.v = mkbytes(content, SymByteArray)
        self.pos = 0
        self.closed = False
        self.reads = 0
        self.read_limit = None
        self.writable_ = True
        self.log = []
        self.mode = mode

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def seek(self, off, whence=0):
        self._chk()
        if not is_num(off):
            raise TypeError('an integer is required')
        off = norm(off)
        if off > (1 << 63) - 1:
            raise OverflowError('Python int too large to convert to C ssize_t')
        if whence == 0:
            if off < 0:
                raise ValueError('negative seek value')
            if eng().pin:
                off = pin(off)
            self.pos = off
        elif whence == 1:
            self.pos = smax(self.pos + off, 0)
        elif whence == 2:
            self.pos = smax(self.v.n + off, 0)
        else:
            raise ValueError('invalid whence')
        return self.pos

    def tell(self):
        self._chk()
        return self.pos

    def read(self, size=-1):
        self._chk()
        self.reads += 1
        if self.read_limit is not None and self.reads > self.read_limit:
            raise ReadLimit()
        end = self.v.n
        if size is not None:
            size = norm(size)
            if not is_num(size):
                raise TypeError('argument should be integer or None')
            if size > (1 << 63) - 1:
                raise OverflowError('Python int too large to convert to C ssize_t')
        if self.pos >= end:
            return b''
        if size is None or (isinstance(size, int) and size < 0) or (not isinstance(size, int) and bool(size < 0)):
            n = end - self.pos
        else:
            n = smin(size, end - self.pos)
        r = SymBytes(n, mksub(self.v.node, self.pos, n))
        self.log.append((self.pos, n))
        self.pos = self.pos + n
        return r

    def readinto(self, b):
        r = self.read(blen(b))
        b[:blen(r)] = r
        return blen(r)

    def write(self, data):
        self._chk()
        n = blen(data)
        if self.pos > self.v.n:
            self.v = self.v + SymBytes(self.pos - self.v.n, NRep(0))
        self.v[self.pos:self.pos + n] = data
        self.pos = self.pos + n
        return n

    def getvalue(self):
        return SymBytes(self.v.n, self.v.node)

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def truncate(self, size=None):
        raise Unsupported('truncate')

    def seekable(self):
        return True

    def readable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class ReadLimit(Exception):
    """More reads than the harness allows (the code does not terminate within the bound)."""


class Text:
    """Text with printed numbers and times whose values are symbolic: a list of strings and (value, format) pairs."""

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, Text):
                more = p.parts
            else:
                more = [p]
            for q in more:
                if isinstance(q, (str, SymStr)):
                    if len(q) == 0:
                        continue
                    if self.parts and isinstance(self.parts[-1], (str, SymStr)):
                        self.parts[-1] = self.parts[-1] + q
                        continue
                self.parts.append(q)

    def __add__(self, o):
        return Text([self, o])

    def __radd__(self, o):
        return Text([o, self])

    def __bool__(self):
        return True

    def __len__(self):
        raise Unsupported('length of a printed number')

    def __hash__(self):
        raise Unsupported('hash of a printed number')

    def __eq__(self, o):
        a = self.parts
        if isinstance(o, (str, SymStr)):
            b = Text([o]).parts
        elif isinstance(o, Text):
            b = o.parts
        else:
            return False
        if len(a) == len(b) and all(isinstance(x, tuple) == isinstance(y, tuple) for x, y in zip(a, b)):
            r = []
            for x, y in zip(a, b):
                if isinstance(x, tuple):
                    if x[1] != y[1]:
                        raise Unsupported('comparison of numbers printed in different ways')
                    r.append(x[0] == y[0])
                else:
                    r.append(len(x) == len(y) and x == y)
            return sand(*r)
        if len(a) == 1 and len(b) == 1:  # a single value and a string
            (x, f), y = (a[0], b[0]) if isinstance(a[0], tuple) else (b[0], a[0])
            if isinstance(y, str):
                if isinstance(x, SymInt) and f == '':
                    return x == int(y) if y.lstrip('-').isdigit() and str(int(y)) == y else False
                if getattr(x, 'SYMTIME', False):
                    import datetime
                    try:
                        d = datetime.datetime.strptime(y, f) if f else datetime.datetime.fromisoformat(y)
                    except ValueError:
                        return False
                    return x == (d.date() if x.REAL is datetime.date else d)
        c, d = Text(self.small()), Text(Text(b).small())
        if len(c.parts) < len(a) or len(d.parts) < len(b) or any(isinstance(x, tuple) != isinstance(y, tuple) for x, y in zip(c.parts + d.parts, a + b)):
            return c == d
        raise Unsupported('comparison of printed values')

    def small(self):
        """The parts, with numbers of a small range made concrete."""
        return [format(concretize(p[0]), p[1]) if isinstance(p, tuple) and isinstance(p[0], SymInt) and p[0].hi - p[0].lo < 8192 else p for p in self.parts]

    def __ne__(self, o):
        return snot(self == o)

    def __format__(self, spec):
        raise Unsupported('printing of a printed value')


def printed(x, spec=''):
    """What str(x) or format(x, spec) gives, in text mode."""
    if isinstance(x, (str, SymStr, Text)) and not spec:
        return x
    if isinstance(x, SymInt):
        return Text([(x, spec)])
    if isinstance(x, SymBool):
        return format(bool(x), spec)
    if getattr(x, 'SYMTIME', False) or (isinstance(x, SymBytes) or getattr(x, 'SYMUUID', False)) and not spec:
        return Text([(x, spec)])
    if isinstance(x, (SymBytes, SymStr, Text)):
        raise Unsupported('printing of a symbolic value')
    return format(x, spec)
