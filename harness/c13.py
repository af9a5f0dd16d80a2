"""C13: attribute lists, extended attributes and reparse points."""
import uuid
from dfir_ntfs import MFT
from dfir_ntfs import Attributes as A
from harness.util import *

FILES = ['dfir_ntfs/Attributes.py', 'dfir_ntfs/MFT.py']
ASSUMPTIONS = ['Names contain no surrogate code units.']


def h_list(ctx, size, k, start):
    """Walk at most k entries of an attribute list with arbitrary content (the first entry fixed to start bytes when given)."""
    raw = ctx.bytes('v', size, array=True)
    if start:
        ctx.assume(ctx.And(u16(raw, 4) == start, raw[6] == 0))
    it = iter(A.AttributeList(raw).entries())
    pos = 0
    for n in range(k):
        nl = ctx.byte_at(raw, pos + 6)
        no = ctx.byte_at(raw, pos + 7)
        for i in range(3):
            hi = ctx.byte_at(raw, pos + no + 2 * i + 1)
            ctx.assume(ctx.Or(i >= nl, hi < 0xD8, hi > 0xDF))
        ctx.assume(nl <= 3)
        e = next(it, None)
        rl = a16(ctx, raw, pos + 4)
        valid = ctx.And(pos + 26 <= size, rl >= 26, ctx.Or(nl == 0, no + 2 * nl <= rl))
        if e is None:
            ctx.outcome('end after %d' % n)
            ctx.check(ctx.Not(valid), 'enumeration stopped before the end of the list')
            return
        ctx.outcome('entry')
        ctx.check(valid, 'an invalid entry of an attribute list is reported')
        ctx.check(ctx.And(e.attribute_type_code == a32(ctx, raw, pos), e.lowest_vcn == a64(ctx, raw, pos + 8), e.segment_reference == a64(ctx, raw, pos + 16), e.attribute_instance == a16(ctx, raw, pos + 24)), 'fields of an entry')
        if e.attribute_name is None:
            ctx.check(nl == 0, 'name lost')
        else:
            ctx.check(nl > 0, 'name invented')
            if ctx.fork(pos + no + 2 * nl <= size):
                ctx.outcome('name')
                m = ctx.concrete(nl)
                ctx.check(len(e.attribute_name) == m, 'length of the name')
                for i in range(m):
                    ctx.check(ord(e.attribute_name[i]) == a16(ctx, raw, pos + no + 2 * i), 'name')
        pos = pos + (rl + 7) // 8 * 8
        if ctx.fork(pos >= size):
            ctx.outcome('last')
            ctx.check(next(it, None) is None, 'entries beyond the list')
            return
        pos = ctx.concrete(pos)


def h_volume(ctx, voff, csize):
    """An attribute list in the clusters of a volume; stale entries follow its end in the last cluster."""
    per = csize // 32
    vals = [(ctx.int('vcn%d' % k, 0, (1 << 64) - 1), ctx.int('ref%d' % k, 0, (1 << 64) - 1), k % 100) for k in range(3 * per)]
    ents = [p32(0x80) + p16(32) + b'\0\x1a' + p64(v) + p64(r) + p16(i) + b'\0' * 6 for v, r, i in vals]
    size = ctx.choice('size', [0, 32, csize - 6, csize, csize + 32, 2 * csize, 2 * csize + 25, 2 * csize + 26, 3 * csize - 32, 3 * csize])
    first = ctx.choice('first', [2, 5])
    second = ctx.choice('second', [3, 7])
    broken = ctx.choice('broken', ['no', 'sparse', 'cut'])
    at = {first: ents[:per], second: ents[per:2 * per], second + 1: ents[2 * per:]}
    vol = b'\x77' * voff
    for k in range(9):
        vol = vol + (b''.join(at[k]) if k in at else bytes([k + 1]) * csize)
    if broken == 'cut':
        vol = vol[:voff + (second + 1) * csize + csize // 2]
    pairs = b'\x11\x01' + p8(first) + (b'\x01\x02' if broken == 'sparse' else b'\x11\x02' + p8((second - first) & 0xFF)) + b'\0'
    seg = MFT.FileRecordSegment(frs_build([attr_nonresident(0x20, 0, 2, pairs, 3 * csize, size, size)], 40), True, 40)
    attr = [a for a in seg.attributes()][0]
    try:
        got = list(attr.value_decoded(ctx.file(vol), voff, csize).entries())
    except MFT.MasterFileTableException:
        ctx.outcome('refused')
        ctx.check(broken != 'no', 'an attribute list is refused')
        return
    ctx.check(broken == 'no', 'an incomplete attribute list is accepted')
    want = [x for k, x in enumerate(vals) if 32 * k + 26 <= size]
    ctx.outcome('none' if not want else 'entries')
    ctx.check(len(got) == len(want), 'number of entries')
    for g, (v, r, i) in zip(got, want):
        ctx.check(ctx.And(g.lowest_vcn == v, g.segment_reference == r, g.attribute_instance == i), 'entry')


def h_compacted(ctx, n):
    v = ctx.bytes('v', n)
    got = A.AttributeList(v).get_last_compacted_size()
    if ctx.fork(ctx.And(n >= 32, v[26:28] == b'DC')):
        ctx.outcome('set')
        ctx.check(got == u32(v, 28), 'last compacted size')
    else:
        ctx.outcome('not set')
        ctx.check(got is None, 'a last compacted size is invented')


def h_ea(ctx, size, k):
    raw = ctx.bytes('v', size, array=True)
    it = iter(A.EA(raw).data_parsed())
    pos = 0
    j = ctx.int('j', 0, size)
    for n in range(k):
        avail = size - pos
        nxt = a32(ctx, raw, pos)
        nl, vl = ctx.byte_at(raw, pos + 5), a16(ctx, raw, pos + 6)
        e = next(it, None)
        valid = ctx.And(avail > 8, 9 + nl + vl <= avail, nxt <= avail, ctx.byte_at(raw, pos + 8 + nl) == 0)
        if e is None:
            ctx.outcome('end after %d' % n)
            ctx.check(ctx.Not(valid), 'enumeration stopped before the last extended attribute')
            return
        ctx.outcome('entry')
        name, flags, value = e
        ctx.check(valid, 'an invalid extended attribute is reported')
        ctx.check(flags == ctx.byte_at(raw, pos + 4), 'flags')
        ctx.check(len(name) == nl + 1, 'length of the name')
        ctx.check(len(value) == vl, 'length of the value')
        if ctx.fork(j < nl + 1):
            ctx.check(ctx.byte_at(name, j) == ctx.byte_at(raw, pos + 8 + j), 'name')
        if ctx.fork(j < vl):
            ctx.check(ctx.byte_at(value, j) == ctx.byte_at(raw, pos + 9 + nl + j), 'value')
        if ctx.fork(nxt == 0):
            ctx.outcome('last')
            ctx.check(next(it, None) is None, 'entries after the last one')
            return
        pos = pos + ctx.concrete(nxt)


def h_reparse(ctx, n, ba):
    v = ctx.bytes('v', n)
    r = A.ReparsePoint(bytearray(v) if ba else v)
    tag = u32(v, 0)
    dl = u16(v, 4)
    ms = tag >= 0x80000000
    ctx.check(r.get_reparse_tag() == tag, 'tag')
    ctx.check(r.is_reparse_tag_microsoft() == ms, 'owner of the tag')
    ctx.check(r.get_reparse_data_length() == dl, 'data length')
    g = r.get_reparse_guid()
    b = r.get_reparse_buffer()
    j = ctx.int('j', 0, n)
    if ctx.fork(ms):
        ctx.outcome('microsoft')
        start = 8
        ctx.check(g is None, 'a GUID for a Microsoft tag')
    else:
        start = 24
        if n >= 24:
            ctx.outcome('third-party')
            ctx.check(g is not None, 'no GUID')
            ctx.check(g.bytes_le == v[8:24], 'GUID')
        else:
            ctx.outcome('short')
            ctx.check(g is None, 'a GUID from a truncated value')
    have = max(n - start, 0)
    ctx.check(len(b) == ctx.If(dl < have, dl, have), 'length of the reparse buffer')
    if ctx.fork(j < len(b)):
        ctx.check(ctx.byte_at(b, j) == ctx.byte_at(v, start + j), 'reparse buffer')


CASES = [
    {'name': 'list_72', 'fn': h_list, 'cfg': {'size': 72, 'k': 2, 'start': 0}, 'bounds': 'every 72-byte list, names of up to 3 characters', 'expect': ['entry', 'end after 0', 'name', 'last']},
    {'name': 'list_name', 'fn': h_list, 'cfg': {'size': 72, 'k': 2, 'start': 32}, 'bounds': 'every 72-byte list whose first entry has 32 bytes and no name', 'expect': ['entry', 'end after 1', 'name', 'last']},
    {'name': 'list_short', 'fn': h_list, 'cfg': {'size': 25, 'k': 1, 'start': 0}, 'bounds': 'every 25-byte list', 'expect': ['end after 0']},
    {'name': 'ea_28', 'fn': h_ea, 'cfg': {'size': 28, 'k': 2}, 'bounds': 'every 28-byte value, up to 2 attributes', 'expect': ['entry', 'end after 0', 'end after 1', 'last']},
    {'name': 'ea_40', 'tier': 'thorough', 'fn': h_ea, 'cfg': {'size': 40, 'k': 3}, 'bounds': 'every 40-byte value, up to 3 attributes', 'expect': ['entry', 'end after 0', 'end after 1', 'last']},
    {'name': 'ea_9', 'fn': h_ea, 'cfg': {'size': 9, 'k': 2}, 'bounds': 'every 9-byte value', 'expect': ['entry', 'end after 0', 'last']},
    {'name': 'ea_100', 'fn': h_ea, 'cfg': {'size': 100, 'k': 1}, 'bounds': 'first attribute of every 100-byte value', 'expect': ['entry', 'end after 0', 'last']},
    {'name': 'ea_8', 'fn': h_ea, 'cfg': {'size': 8, 'k': 1}, 'bounds': 'every 8-byte value', 'expect': ['end after 0']},
]
CASES += [{'name': 'compacted_%d' % n, 'fn': h_compacted, 'cfg': {'n': n}, 'bounds': 'every %d-byte list' % n, 'expect': ['not set'] + (['set'] if n >= 32 else [])} for n in (26, 28, 31, 32, 64)]
CASES += [{'name': 'reparse_%d_%d' % (n, ba), 'fn': h_reparse, 'cfg': {'n': n, 'ba': ba}, 'bounds': 'every %d-byte value' % n, 'expect': ['microsoft', 'third-party' if n >= 24 else 'short']} for n, ba in ((8, 0), (20, 1), (24, 1), (60, 0), (60, 1))]
for _voff, _c in ((0, 512), (1536, 512), (512, 1024)):
    CASES.append({'name': 'volume_%d_%d' % (_voff, _c), 'fn': h_volume, 'cfg': {'voff': _voff, 'csize': _c}, 'expect': ['none', 'entries', 'refused'], 'bounds': 'a nonresident list in two runs, ten sizes, stale entries behind its end, arbitrary references and VCNs'})
