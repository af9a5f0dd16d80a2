"""C14: decoding of USN records."""
from dfir_ntfs import USN
from dfir_ntfs.Attributes import DecodeFiletime
from harness.util import *

FILES = ['dfir_ntfs/USN.py']
ASSUMPTIONS = ['File names contain no surrogate code units.', 'Timestamps are compared through the timestamp decoder, which C10 decides.']


def u128(b, o):
    return u64(b, o) + (u64(b, o + 8) << 64)


def valid(ctx, raw, n):
    """Whether a buffer of n bytes holds a record."""
    if n < 8:
        return False
    ln, maj = u32(raw, 0), u16(raw, 4)
    return ctx.And(ln % 8 == 0, ln <= n, ctx.Or(ctx.And(maj == 2, ln >= 62), ctx.And(maj == 3, ln >= 78), ctx.And(maj == 4, ln >= 80)))


def h_any(ctx, n):
    raw = ctx.bytes('v', n)
    ok = valid(ctx, raw, n)
    try:
        r = USN.GetUsnRecord(raw)
    except (ValueError, NotImplementedError):
        ctx.outcome('refused')
        ctx.check(ctx.Not(ok), 'a valid record is refused')
        return
    ctx.check(ok, 'an invalid record is accepted')
    maj = u16(raw, 4)
    ctx.check(ctx.And(r.get_record_length() == u32(raw, 0), r.get_major_version() == maj, r.get_minor_version() == u16(raw, 6)), 'header of a record')
    v4 = type(r) is USN.USN_RECORD_V4
    ctx.check(v4 == (maj == 4), 'kind of the record')
    if v4:
        ctx.outcome('v4')
        ctx.check(ctx.And(r.get_file_reference_number() == u128(raw, 8), r.get_parent_file_reference_number() == u128(raw, 24)), 'file references')
        ctx.check(ctx.And(r.get_usn() == u64(raw, 40), r.get_reason() == u32(raw, 48), r.get_source_info() == u32(raw, 52)), 'fields of a record')
        ctx.check(ctx.And(r.get_remaining_extents() == u32(raw, 56), r.get_number_of_extents() == u16(raw, 60), r.get_extent_size() == u16(raw, 62)), 'extent fields')
        return
    if ctx.fork(maj == 3):
        ctx.outcome('v3')
        ctx.check(ctx.And(r.get_file_reference_number() == u128(raw, 8), r.get_parent_file_reference_number() == u128(raw, 24)), 'file references')
        o = 40
    else:
        ctx.outcome('v2')
        ctx.check(ctx.And(r.get_file_reference_number() == u64(raw, 8), r.get_parent_file_reference_number() == u64(raw, 16)), 'file references')
        o = 24
    ctx.check(ctx.And(r.get_usn() == u64(raw, o), r.get_reason() == u32(raw, o + 16), r.get_source_info() == u32(raw, o + 20), r.get_security_id() == u32(raw, o + 24), r.get_file_attributes() == u32(raw, o + 28)), 'fields of a record')
    ctx.check(ctx.And(r.get_file_name_length() == u16(raw, o + 32), r.get_file_name_offset() == u16(raw, o + 34)), 'place of the name')


def h_time(ctx, ver):
    raw = p32(80) + p16(ver) + p16(0) + ctx.bytes('v', 72)
    r = USN.GetUsnRecord(raw)
    got, want = r.get_timestamp(), DecodeFiletime(u64(raw, 32 if ver == 2 else 48))
    ctx.outcome('invalid' if want is None else 'valid')
    ctx.check((got is None) == (want is None), 'timestamp')
    if want is not None:
        ctx.check(got == want, 'timestamp')


def h_name(ctx, ver, n, total):
    """A name of n bytes anywhere in a record of total bytes that sits in a longer buffer."""
    o = 56 if ver == 2 else 72
    off = ctx.int('off', 0, total + 8)
    body = ctx.bytes('v', total - o - 4, array=True)
    tail = ctx.bytes('tail', 16)
    raw = p32(total) + p16(ver) + p16(0) + b'\x00' * (o - 8) + p16(n) + p16(off) + body + tail
    for i in range(0, n - 1, 2):
        hi = ctx.byte_at(raw, off + i + 1)
        ctx.assume(ctx.Or(hi < 0xD8, hi > 0xDF))
    r = USN.GetUsnRecord(raw)
    try:
        got = r.get_file_name()
    except ValueError:
        ctx.outcome('refused')
        ctx.check(off + n > total, 'a name inside the record is refused')
        return
    ctx.outcome('name')
    ctx.check(ctx.Or(off + n <= total, n == 0), 'a name beyond the end of the record is reported')
    ctx.check(len(got) == (n + 1) // 2, 'length of the name')
    for i in range(n // 2):
        ctx.check(ord(got[i]) == a16(ctx, raw, off + 2 * i), 'name')


def h_extents(ctx, total, sizes):
    cnt = ctx.int('count', 0, 65535)
    es = ctx.choice('size', sizes)
    body = ctx.bytes('v', total - 64)
    raw = p32(total) + p16(4) + p16(0) + b'\x00' * 52 + p16(cnt) + p16(es) + body + ctx.bytes('tail', 40)
    r = USN.GetUsnRecord(raw)
    fit = (total - 64) // es
    n = ctx.concrete(ctx.If(cnt < fit, cnt, fit))
    got = list(r.extents())
    ctx.outcome('%d extents' % n)
    ctx.check(len(got) == n, 'number of extents')
    for i, e in enumerate(got):
        if es == 16:
            ctx.check(ctx.And(e[0] == s64(body, 16 * i), e[1] == s64(body, 16 * i + 8)), 'extent')
        else:
            ctx.check(e == body[es * i:es * i + es], 'raw extent')


REASONS = {0x8000: 'BASIC_INFO_CHANGE', 0x80000000: 'CLOSE', 0x20000: 'COMPRESSION_CHANGE', 0x2: 'DATA_EXTEND', 0x1: 'DATA_OVERWRITE', 0x4: 'DATA_TRUNCATION', 0x400: 'EA_CHANGE', 0x40000: 'ENCRYPTION_CHANGE', 0x100: 'FILE_CREATE', 0x200: 'FILE_DELETE',
           0x10000: 'HARD_LINK_CHANGE', 0x4000: 'INDEXABLE_CHANGE', 0x800000: 'INTEGRITY_CHANGE', 0x20: 'NAMED_DATA_EXTEND', 0x10: 'NAMED_DATA_OVERWRITE', 0x40: 'NAMED_DATA_TRUNCATION', 0x80000: 'OBJECT_ID_CHANGE', 0x2000: 'RENAME_NEW_NAME',
           0x1000: 'RENAME_OLD_NAME', 0x100000: 'REPARSE_POINT_CHANGE', 0x800: 'SECURITY_CHANGE', 0x200000: 'STREAM_CHANGE', 0x400000: 'TRANSACTED_CHANGE'}
REASONS = {k: 'USN_REASON_' + v for k, v in REASONS.items()}
SOURCES = {1: 'USN_SOURCE_DATA_MANAGEMENT', 2: 'USN_SOURCE_AUXILIARY_DATA', 4: 'USN_SOURCE_REPLICATION_MANAGEMENT', 8: 'USN_SOURCE_CLIENT_REPLICATION_MANAGEMENT'}


def h_codes(ctx, mask, kind):
    known = REASONS if kind == 'reason' else SOURCES
    c = ctx.int('c', 0, 0xFFFFFFFF)
    ctx.assume(c & ~mask & 0xFFFFFFFF == 0)
    want = [known[b] for b in sorted(known) if mask & b and ctx.fork(c & b > 0)]
    left = c & ~sum(known) & 0xFFFFFFFF
    left = ctx.concrete(left)
    if left:
        want.append(hex(left))
    got = USN.ResolveReasonCodes(c) if kind == 'reason' else USN.ResolveSourceCodes(c)
    ctx.outcome('some' if want else 'none')
    ctx.check(got == ' | '.join(want), 'names of the codes')


CASES = [{'name': 'any_%d' % n, 'fn': h_any, 'cfg': {'n': n}, 'bounds': 'every %d-byte buffer' % n, 'expect': ['refused'] + (['v2'] if n >= 64 else []) + (['v3', 'v4'] if n >= 80 else [])} for n in (0, 7, 8, 61, 63, 64, 72, 79, 80, 96, 160)]
CASES += [{'name': 'time_%d' % v, 'fn': h_time, 'cfg': {'ver': v}, 'bounds': 'every timestamp', 'expect': ['valid', 'invalid']} for v in (2, 3)]
CASES += [{'name': 'name_%d_%d' % (v, n), 'fn': h_name, 'cfg': {'ver': v, 'n': n, 'total': t}, 'bounds': 'every %d-byte name at any offset in a %d-byte record' % (n, t), 'expect': ['name'] + (['refused'] if n else [])} for v, n, t in ((2, 0, 64), (2, 2, 72), (2, 12, 80), (3, 12, 96), (3, 5, 88))]
CASES += [
    {'name': 'extents_16', 'fn': h_extents, 'cfg': {'total': 112, 'sizes': [16]}, 'bounds': 'every count, three extents fit', 'expect': ['0 extents', '3 extents']},
    {'name': 'extents_odd', 'fn': h_extents, 'cfg': {'total': 120, 'sizes': [24, 15, 17, 60]}, 'bounds': 'every count, unusual sizes', 'expect': ['0 extents', '3 extents']},
]
CASES += [{'name': 'reason_%x' % m, 'fn': h_codes, 'cfg': {'mask': m, 'kind': 'reason'}, 'bounds': 'every combination of the bits in 0x%x' % m, 'expect': ['some', 'none']} for m in (0x7F, 0x3F80, 0xFC000, 0x3F00000, 0xFC000000)]
CASES += [{'name': 'source_%x' % m, 'fn': h_codes, 'cfg': {'mask': m, 'kind': 'source'}, 'bounds': 'every combination of the bits in 0x%x' % m, 'expect': ['some', 'none']} for m in (0x7F, 0xF0000000)]
