"""Little-endian field access and small helpers shared by the harnesses (both interpretations)."""
import struct


def u8(b, o):
    return b[o]


def u16(b, o):
    return struct.unpack('<H', b[o:o + 2])[0]


def u32(b, o):
    return struct.unpack('<L', b[o:o + 4])[0]


def u64(b, o):
    return struct.unpack('<Q', b[o:o + 8])[0]


def s64(b, o):
    return struct.unpack('<q', b[o:o + 8])[0]


def s32(b, o):
    return struct.unpack('<l', b[o:o + 4])[0]


def p8(v):
    return struct.pack('<B', v)


def p16(v):
    return struct.pack('<H', v)


def p32(v):
    return struct.pack('<L', v)


def p64(v):
    return struct.pack('<Q', v)


def a16(ctx, b, o):
    """u16 at an offset that may lie anywhere (no bounds fork; bytes past the end are unspecified)."""
    return ctx.byte_at(b, o) | (ctx.byte_at(b, o + 1) << 8)


def a32(ctx, b, o):
    return a16(ctx, b, o) | (a16(ctx, b, o + 2) << 16)


def a64(ctx, b, o):
    return a32(ctx, b, o) | (a32(ctx, b, o + 4) << 32)


def put(buf, off, data):
    """buf with data placed at a concrete offset."""
    return buf[:off] + data + buf[off + len(data):]


def sext(ctx, v, bits):
    return ctx.If(v >= (1 << (bits - 1)), v - (1 << bits), v)


def same_bytes(ctx, got, want, n, j, msg):
    """got has length n and equals want byte by byte, where j is an arbitrary index and want(j) gives the expected byte."""
    ctx.check(len(got) == n, msg + ': length')
    if ctx.fork(ctx.And(j >= 0, j < n)):
        ctx.check(ctx.byte_at(got, j) == want(j), msg + ': content')


class PadBytes:
    """Native-side view of a buffer that tolerates reads past its end (the symbolic array does too)."""

    def __init__(self, b):
        self.b = b

    def __getitem__(self, i):
        return self.b[i] if 0 <= i < len(self.b) else 0


def attr_resident(type_code, value, name=b'', instance=0):
    """A resident attribute record; lengths are concrete, contents may be symbolic. name is UTF-16LE bytes."""
    vo = (24 + len(name) + 7) // 8 * 8
    rl = (vo + len(value) + 7) // 8 * 8
    return p32(type_code) + p32(rl) + bytes([0, len(name) // 2]) + p16(24) + p16(0) + p16(instance) + p32(len(value)) + p16(vo) + b'\x00\x00' + name + b'\x00' * (vo - 24 - len(name)) + value + b'\x00' * (rl - vo - len(value))


def attr_nonresident(type_code, lowest, highest, pairs, allocated, size, valid, name=b'', instance=0):
    mo = (64 + len(name) + 7) // 8 * 8
    rl = (mo + len(pairs) + 7) // 8 * 8
    return (p32(type_code) + p32(rl) + bytes([1, len(name) // 2]) + p16(64) + p16(0) + p16(instance) + p64(lowest) + p64(highest) + p16(mo) + b'\x00' * 6 + p64(allocated) + p64(size) + p64(valid)
            + name + b'\x00' * (mo - 64 - len(name)) + pairs + b'\x00' * (rl - mo - len(pairs)))


def frs_build(attrs, number, seq=1, flags=1, base=0, size=1024, usn=0x1234, lsn=0, sig=b'FILE', short=False, links=1):
    """A file record segment with a valid update sequence array (concrete layout, possibly symbolic field values)."""
    body = b''
    for a in attrs:
        body = body + a
    body = body + b'\xff\xff\xff\xff\x00\x00\x00\x00'
    uo = 42 if short else 48
    n = size // 512 + 1
    first = (uo + 2 * n + 7) // 8 * 8
    used = first + len(body)
    assert used <= size
    head = sig + p16(uo) + p16(n) + p64(lsn) + p16(seq) + p16(links) + p16(first) + p16(flags) + p32(used) + p32(size) + p64(base) + p16(7)
    if not short:
        head = head + p16((number >> 32) & 0xFFFF) + p32(number & 0xFFFFFFFF)
    data = head + b'\x00' * (first - len(head)) + body
    data = data + b'\x00' * (size - used)
    saved = b''
    out = b''
    for k in range(size // 512):
        sec = data[k * 512:k * 512 + 512]
        saved = saved + sec[510:512]
        out = out + sec[:510] + p16(usn)
    usa = p16(usn) + saved
    return out[:uo] + usa + out[uo + len(usa):]


def file_name_value(parent, name, flags=1, times=(0, 0, 0, 0), sizes=(0, 0), fattr=0):
    """A $FILE_NAME value; name is UTF-16LE bytes of a concrete length."""
    return p64(parent) + p64(times[0]) + p64(times[1]) + p64(times[2]) + p64(times[3]) + p64(sizes[0]) + p64(sizes[1]) + p32(fattr) + p32(0) + bytes([len(name) // 2]) + p8(flags) + name


VOLUME_INFO = b'\x00' * 8 + bytes([3, 1]) + b'\x00\x00'


def same_cell(ctx, got, want):
    """What a CSV file shows for the two values is the same."""
    if isinstance(want, (bytes, bytearray)) or isinstance(got, (bytes, bytearray)):
        return got == want
    if got is None or want is None:
        return (got is None or got == '') and (want is None or want == '')
    return str(got) == str(want)


def same_rows(ctx, got, want):
    ctx.check(len(got) == len(want), 'number of rows')
    for g, w in zip(got, want):
        ctx.check(len(g) == len(w), 'number of cells')
        for k, (a, b) in enumerate(zip(g, w)):
            ctx.check(same_cell(ctx, a, b), 'cell %d of a row' % k)
