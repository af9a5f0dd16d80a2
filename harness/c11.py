"""C11: decoding of fixed-layout attribute values."""
import uuid
from dfir_ntfs import Attributes as A
from harness.util import *

FILES = ['dfir_ntfs/Attributes.py']
ASSUMPTIONS = ['Timestamps are compared through the timestamp decoder, which C10 decides.']


def same_time(ctx, got, raw, off, msg):
    want = A.DecodeFiletime(u64(raw, off))
    if want is None or got is None:
        ctx.outcome('invalid time')
        ctx.check(want is None and got is None, msg)
        return
    ctx.outcome('time')
    ctx.check(got == want, msg)


def h_si(ctx, n):
    v = ctx.bytes('v', n)
    a = A.StandardInformation(v)
    which = ctx.choice('which', ['time', 'other'])
    if which == 'time':
        k = ctx.choice('k', [0, 1, 2, 3])
        got = [a.get_ctime, a.get_mtime, a.get_etime, a.get_atime][k]()
        same_time(ctx, got, v, 8 * k, 'a timestamp of $STANDARD_INFORMATION')
        return
    ctx.outcome('fields')
    ctx.check(a.get_file_attributes() == u32(v, 32), 'file attributes')
    ctx.check(a.get_maximum_versions() == u32(v, 36), 'maximum versions')
    f = u32(v, 40)
    ctx.check(ctx.And(a.get_version_number() == f, a.get_extra_flags() == f), 'version number and extra flags')
    ctx.check(a.is_case_sensitive() == (f % 2 == 1), 'case sensitivity')
    ctx.check(a.get_known_folder_information() == (f >> 1) % 8, 'known folder tag')
    ctx.check(a.get_trust_level() == (f >> 4) % 4, 'trust level')
    ctx.check(a.get_storage_reserve_id() == (f >> 8) % 16, 'storage reserve')
    ctx.check(a.get_class_id() == u32(v, 44), 'class ID')
    for g, o, w in ((a.get_owner_id, 48, 4), (a.get_security_id, 52, 4), (a.get_quota_charged, 56, 8), (a.get_usn, 64, 8)):
        x = g()
        if o + w > n:
            ctx.check(x is None, 'a field is invented for a short $STANDARD_INFORMATION')
        else:
            ctx.check(x is not None, 'a field is lost')
            ctx.check(x == (u32(v, o) if w == 4 else u64(v, o)), 'an extended field of $STANDARD_INFORMATION')


def h_sip(ctx, off, n):
    v = ctx.bytes('v', n)
    a = A.StandardInformationPartial(v, off)
    k = ctx.choice('k', [0, 1, 2, 3])
    got = [a.get_ctime, a.get_mtime, a.get_etime, a.get_atime][k]()
    if off <= 8 * k and 8 * k + 8 <= off + n:
        same_time(ctx, got, v, 8 * k - off, 'a timestamp of a partial $STANDARD_INFORMATION')
    else:
        ctx.outcome('absent')
        ctx.check(got is None, 'a timestamp is invented from bytes that were not logged')


def dup(ctx, a, v, off):
    ctx.check(a.get_allocated_length() == s64(v, off + 32), 'allocated length')
    ctx.check(a.get_file_size() == s64(v, off + 40), 'file size')
    ctx.check(a.get_file_attributes() == u32(v, off + 48), 'file attributes')
    ctx.check(a.get_packed_ea_size() == u16(v, off + 52), 'packed EA size')
    ctx.check(a.get_unpacked_ea_size_difference() == u16(v, off + 54), 'EA size difference')


def h_dup(ctx, off, cls):
    v = ctx.bytes('v', 80)
    a = A.FileName(v) if cls == 'fn' else A.DuplicatedInformation(v, off)
    which = ctx.choice('which', ['time', 'other'])
    if which == 'time':
        k = ctx.choice('k', [0, 1, 2, 3])
        same_time(ctx, [a.get_ctime, a.get_mtime, a.get_etime, a.get_atime][k](), v, off + 8 * k, 'a timestamp')
        return
    ctx.outcome('fields')
    dup(ctx, a, v, off)
    if cls == 'fn':
        ctx.check(a.get_parent_directory() == u64(v, 0), 'parent directory')
        ctx.check(a.get_file_name_length() == v[64], 'name length')
        ctx.check(a.get_flags() == v[65], 'name space flags')


def h_name(ctx, n):
    """The name stored in $FILE_NAME: n code units, some bytes after it."""
    name = ctx.bytes('name', 2 * n)
    tail = ctx.bytes('tail', 6)
    v = b'\x00' * 64 + bytes([n, 1]) + name + tail
    for i in range(n):
        c = u16(name, 2 * i)
        ctx.assume(ctx.Or(c < 0xD800, c > 0xDFFF))
    a = A.FileName(v)
    ctx.outcome('name')
    got = a.get_file_name()
    ctx.check(len(got) == n, 'length of the name')
    for i in range(n):
        ctx.check(ord(got[i]) == u16(name, 2 * i), 'character of the name')


def h_badname(ctx):
    """Unpaired surrogates are replaced and never raise."""
    name = ctx.bytes('name', 4)
    a = A.FileName(b'\x00' * 64 + bytes([2, 1]) + name)
    got = a.get_file_name()
    c, d = u16(name, 0), u16(name, 2)
    hi = ctx.And(c >= 0xD800, c <= 0xDBFF)
    lo = ctx.And(d >= 0xDC00, d <= 0xDFFF)
    if ctx.fork(ctx.And(hi, lo)):
        ctx.outcome('pair')
        ctx.check(len(got) == 1, 'a surrogate pair is one character')
    else:
        ctx.outcome('other')
        ctx.check(len(got) >= 1, 'name')


def h_oid(ctx, n):
    v = ctx.bytes('v', n)
    a = A.ObjectID(v)
    g = a.get_object_id()
    t = a.get_timestamp()
    if n < 16:
        ctx.outcome('short')
        ctx.check(g is None and t is None, 'an object ID is invented')
        return
    ctx.check(ctx.And(g.time_low == u32(v, 0), g.time_mid == u16(v, 4), g.time_hi_version == u16(v, 6)), 'object ID')
    ctx.check(g.bytes[8:] == v[8:16], 'object ID')
    ctx.check(a.get_extra_data() == v[16:], 'extra data')
    v1 = ctx.And(v[7] >> 4 == 1, v[8] >> 6 == 2)
    if not ctx.fork(v1):
        ctx.outcome('no time')
        ctx.check(t is None, 'a timestamp for a GUID that has none')
        return
    ctx.check(g.time == u32(v, 0) + (u16(v, 4) << 32) + ((u16(v, 6) % 4096) << 48), 'timestamp field of an object ID')
    want = A.DecodeGUIDTime(g.time)
    ctx.outcome('time')
    ctx.check((t is None) == (want is None), 'timestamp of an object ID')
    if t is not None:
        ctx.check(t == want, 'timestamp of an object ID')


def h_vol(ctx):
    v = ctx.bytes('v', 12)
    a = A.VolumeInformation(v)
    ctx.outcome('fields')
    ctx.check(ctx.And(a.get_major_version() == v[8], a.get_minor_version() == v[9], a.get_flags() == u16(v, 10)), 'volume information')
    w = ctx.bytes('w', 8)
    e = A.EAInformation(w)
    ctx.check(ctx.And(e.get_packed_ea_size() == u16(w, 0), e.get_need_ea_count() == u16(w, 2), e.get_unpacked_ea_size() == u32(w, 4)), 'EA information')
    nm = ctx.bytes('nm', 4)
    ctx.assume(ctx.And(ctx.Or(nm[1] < 0xD8, nm[1] > 0xDF), ctx.Or(nm[3] < 0xD8, nm[3] > 0xDF)))
    x = A.VolumeName(nm).get_name()
    ctx.check(ctx.And(len(x) == 2, ord(x[0]) == u16(nm, 0), ord(x[1]) == u16(nm, 2)), 'volume name')


KNOWN = {0x1: 'READ_ONLY', 0x2: 'HIDDEN', 0x4: 'SYSTEM', 0x10: 'DIRECTORY', 0x20: 'ARCHIVE', 0x40: 'DEVICE', 0x80: 'NORMAL', 0x100: 'TEMPORARY', 0x200: 'SPARSE', 0x400: 'REPARSE_POINT', 0x800: 'COMPRESSED', 0x1000: 'OFFLINE',
         0x2000: 'NOT_CONTENT_INDEXED', 0x4000: 'ENCRYPTED', 0x8000: 'INTEGRITY_STREAM', 0x10000: 'VIRTUAL', 0x20000: 'NO_SCRUB_DATA', 0x40000: 'RECALL_ON_OPEN', 0x80000: 'PINNED', 0x100000: 'UNPINNED', 0x400000: 'RECALL_ON_DATA_ACCESS'}


def h_flags(ctx, mask):
    """Every combination of the flags in mask."""
    f = ctx.int('f', 0, 0xFFFFFFFF)
    ctx.assume(f & ~mask & 0xFFFFFFFF == 0)
    got = A.ResolveFileAttributes(f)
    want = ' | '.join([KNOWN[b] for b in sorted(KNOWN) if ctx.fork(f & b > 0)])
    ctx.outcome('some' if want else 'none')
    ctx.check(got == want, 'names of file attributes')


CASES = [{'name': 'si_%d' % n, 'fn': h_si, 'cfg': {'n': n}, 'bounds': 'every %d-byte value' % n, 'expect': ['fields', 'time', 'invalid time']} for n in (48, 51, 52, 55, 56, 63, 64, 71, 72)]
CASES += [{'name': 'sip_%d_%d' % (o, n), 'fn': h_sip, 'cfg': {'off': o, 'n': n}, 'bounds': 'every %d-byte fragment at offset %d' % (n, o), 'expect': []} for o, n in ((0, 8), (0, 72), (0, 31), (8, 24), (8, 7), (16, 16), (24, 8), (24, 7), (4, 28), (1, 20), (32, 8), (15, 9), (16, 15), (9, 23))]
CASES += [
    {'name': 'dup_0', 'fn': h_dup, 'cfg': {'off': 0, 'cls': 'dup'}, 'bounds': 'every value', 'expect': ['fields', 'time', 'invalid time']},
    {'name': 'dup_16', 'fn': h_dup, 'cfg': {'off': 16, 'cls': 'dup'}, 'bounds': 'every value', 'expect': ['fields', 'time', 'invalid time']},
    {'name': 'file_name', 'fn': h_dup, 'cfg': {'off': 8, 'cls': 'fn'}, 'bounds': 'every value', 'expect': ['fields', 'time', 'invalid time']},
    {'name': 'name_1', 'fn': h_name, 'cfg': {'n': 1}, 'bounds': 'every one-character name', 'expect': ['name']},
    {'name': 'name_255', 'fn': h_name, 'cfg': {'n': 255}, 'bounds': 'every 255-character name without surrogates', 'expect': ['name']},
    {'name': 'name_surrogates', 'fn': h_badname, 'bounds': 'every two code units', 'expect': ['pair', 'other']},
    {'name': 'oid_16', 'fn': h_oid, 'cfg': {'n': 16}, 'bounds': 'every 16-byte value', 'expect': ['time', 'no time']},
    {'name': 'oid_64', 'fn': h_oid, 'cfg': {'n': 64}, 'bounds': 'every 64-byte value', 'expect': ['time', 'no time']},
    {'name': 'oid_80', 'fn': h_oid, 'cfg': {'n': 80}, 'bounds': 'every 80-byte value', 'expect': ['time', 'no time']},
    {'name': 'oid_15', 'fn': h_oid, 'cfg': {'n': 15}, 'bounds': 'every 15-byte value', 'expect': ['short']},
    {'name': 'volume', 'fn': h_vol, 'bounds': 'every value', 'expect': ['fields']},
    {'name': 'attributes_low', 'fn': h_flags, 'cfg': {'mask': 0x00FF}, 'bounds': 'every combination of the low 8 flags', 'expect': ['some', 'none']},
    {'name': 'attributes_mid', 'fn': h_flags, 'cfg': {'mask': 0xFF00}, 'bounds': 'every combination of the flags 0x100 to 0x8000', 'expect': ['some', 'none']},
    {'name': 'attributes_high', 'fn': h_flags, 'cfg': {'mask': 0xFFFF0000}, 'bounds': 'every combination of the flags from 0x10000', 'expect': ['some', 'none']},
]
