"""C04: enumeration of the attributes of a file record segment."""
from dfir_ntfs import MFT
from harness.util import *

FILES = ['dfir_ntfs/MFT.py']
ASSUMPTIONS = ['Attribute names are at most 2 characters in the fully symbolic cases (one case has a concrete 200-character name); mapping pairs of nonresident attributes start with a zero byte there (C05 covers their decoding).']
END = 0xFFFFFFFF
ERRORS = (MFT.AttributeException, MFT.MappingPairsException)


def wellformed(ctx, raw, pos, used, size):
    """A plainly valid attribute record at pos."""
    rl, form, nl, no = a32(ctx, raw, pos + 4), ctx.byte_at(raw, pos + 8), ctx.byte_at(raw, pos + 9), a16(ctx, raw, pos + 10)
    base = ctx.And(pos + 16 <= size, a32(ctx, raw, pos) != END, rl % 8 == 0, pos + rl <= used, rl >= 24)
    vl, vo = a32(ctx, raw, pos + 16), a16(ctx, raw, pos + 20)
    res = ctx.And(form == 0, vo % 8 == 0, vo >= 24, vo + vl <= rl, ctx.Or(nl == 0, ctx.And(no % 2 == 0, no >= 24, no + 2 * nl <= vo)))
    lo, hi, mp = a64(ctx, raw, pos + 16), a64(ctx, raw, pos + 24), a16(ctx, raw, pos + 32)
    al, fs, vd = a64(ctx, raw, pos + 40), a64(ctx, raw, pos + 48), a64(ctx, raw, pos + 56)
    top = 1 << 63
    non = ctx.And(form == 1, rl >= 72, lo <= hi, mp >= 64, mp < rl, ctx.Or(nl == 0, ctx.And(no % 2 == 0, no >= 64, no + 2 * nl <= mp)), vd <= fs, fs <= al, al < top)
    return ctx.And(base, ctx.Or(res, non))


def walk(ctx, raw, size, k, maxname):
    j = ctx.int('j', 0, size)
    try:
        frs = MFT.FileRecordSegment(raw, False)
    except MFT.MasterFileTableException:
        ctx.assume(False)
        return
    used = u32(raw, 24)
    pos = u16(raw, 20)
    it = frs.attributes()
    for step in range(k):
        ctx.assume(ctx.byte_at(raw, pos + 9) <= maxname)
        ctx.assume(ctx.Implies(ctx.byte_at(raw, pos + 8) == 1, ctx.byte_at(raw, pos + a16(ctx, raw, pos + 32)) == 0))
        try:
            a = next(it)
        except StopIteration:
            is_end = ctx.And(pos < used, a32(ctx, raw, pos) == END)
            ctx.check(ctx.Or(pos >= used, is_end), 'enumeration stopped before the end of the attributes')
            slack = frs.get_slack()
            if ctx.fork(is_end):
                ctx.outcome('end_marker')
                ctx.check(slack is not None, 'no slack space after the end marker')
                same_bytes(ctx, slack.value, lambda i: ctx.byte_at(raw, pos + 4 + i), size - pos - 4, j, 'slack space')
            else:
                ctx.outcome('end_of_data')
                ctx.check(slack is None, 'slack space without an end marker')
            return
        except ERRORS:
            ctx.outcome('rejected')
            ctx.check(ctx.Not(wellformed(ctx, raw, pos, used, size)), 'a well-formed attribute record is rejected')
            ctx.check(ctx.Not(ctx.And(pos < used, pos + 4 <= size, a32(ctx, raw, pos) == END)), 'the end marker is rejected')
            try:
                slack = frs.get_slack()
            except ERRORS:
                pass
            else:
                ctx.check(slack is None, 'slack space of a segment with invalid attributes')
            return
        ctx.check(ctx.And(pos < used, pos + 16 <= size), 'an attribute record outside the used part of the segment')
        rl, form, nl, no = a32(ctx, raw, pos + 4), ctx.byte_at(raw, pos + 8), ctx.byte_at(raw, pos + 9), a16(ctx, raw, pos + 10)
        ctx.check(a.type_code == a32(ctx, raw, pos), 'type code')
        ctx.check(a.type_code != END, 'the end marker is reported as an attribute')
        ctx.check(ctx.And(rl > 0, rl % 8 == 0, pos + rl <= used), 'record length outside the used part of the segment')
        if a.name is None:
            ctx.check(nl == 0, 'name lost')
        else:
            ctx.check(nl > 0, 'name invented')
            n = ctx.concrete(nl)
            ctx.check(ctx.And(no % 2 == 0, pos + no + 2 * n <= used), 'name outside the used part of the segment')
            want = raw[pos + no:pos + no + 2 * n].decode('utf-16le', errors='replace')
            ctx.check(a.name == want, 'name')
        if type(a) is MFT.AttributeRecordResident:
            ctx.outcome('resident')
            ctx.check(form == 0, 'form code')
            vl, vo = a32(ctx, raw, pos + 16), a16(ctx, raw, pos + 20)
            ctx.check(ctx.And(vo >= 24, vo % 8 == 0, vo + vl <= rl), 'value outside its record')
            ctx.check(ctx.Or(nl == 0, no + 2 * nl <= vo), 'value overlaps the name')
            same_bytes(ctx, a.value, lambda i: ctx.byte_at(raw, pos + vo + i), vl, j, 'attribute value')
        else:
            ctx.outcome('nonresident')
            ctx.check(form == 1, 'form code')
            mp = a16(ctx, raw, pos + 32)
            ctx.check(ctx.And(mp >= 64, mp < rl), 'mapping pairs outside their record')
            ctx.check(ctx.Or(nl == 0, no + 2 * nl <= mp), 'mapping pairs overlap the name')
            ctx.check(ctx.And(a.lowest_vcn == a64(ctx, raw, pos + 16), a.highest_vcn == a64(ctx, raw, pos + 24)), 'VCN range')
            ctx.check(a.lowest_vcn <= a.highest_vcn, 'inverted VCN range accepted')
            ctx.check(a.file_size == a64(ctx, raw, pos + 48), 'file size')
            ctx.check(ctx.And(a64(ctx, raw, pos + 56) <= a.file_size, a.file_size <= a64(ctx, raw, pos + 40), a.file_size < (1 << 63)), 'inconsistent sizes accepted')
            same_bytes(ctx, a.mapping_pairs, lambda i: ctx.byte_at(raw, pos + mp + i), rl - mp, j, 'mapping pairs')
            ctx.check(len(a.data_runs) == 0, 'data runs')
        pos = pos + rl


def h_any(ctx, size, k, maxname):
    raw = ctx.bytes('frs', size, array=True)
    if size > 1024 and k > 1:
        ctx.assume(u32(raw, 28) == size)
    walk(ctx, raw, size, k, maxname)


def h_first(ctx, size, form, maxname):
    raw = ctx.bytes('frs', size, array=True)
    fa = u16(raw, 20)
    ctx.assume(ctx.byte_at(raw, fa + 8) == form)
    walk(ctx, raw, size, 2, maxname)


def h_longname(ctx, form):
    """A record with a 200-character name at a fixed place, everything else symbolic."""
    raw = ctx.bytes('frs', 1024, array=True)
    no = 64 if form else 24
    name = ''.join(chr(0x41 + i % 26) for i in range(200)).encode('utf-16le')
    hdr = b'FILE' + p16(42) + p16(3) + b'\x00' * 8 + p16(1) * 2 + p16(48) + p16(1) + raw[24:28] + p32(1024) + raw[32:48]
    rec = raw[48:56] + bytes([form, 200]) + p16(no) + raw[60:48 + no]
    raw = hdr + rec + name + raw[48 + no + 400:]
    used = u32(raw, 24)
    ctx.assume(ctx.And(used <= 1024, used >= 48))
    if form:
        ctx.assume(ctx.byte_at(raw, 48 + a16(ctx, raw, 48 + 32)) == 0)
    try:
        a = next(MFT.FileRecordSegment(raw, False).attributes())
    except (StopIteration, MFT.AttributeException, MFT.MappingPairsException):
        ctx.outcome('rejected')
        ctx.check(ctx.Not(ctx.And(wellformed(ctx, raw, 48, used, 1024), ctx.Or(form == 0, ctx.byte_at(raw, 48 + a16(ctx, raw, 48 + 32)) == 0))), 'a well-formed attribute record is rejected')
        return
    ctx.outcome('accepted')
    ctx.check(a.name == name.decode('utf-16le'), 'name')


CASES = [
    {'name': 'any_1024_1', 'fn': h_any, 'cfg': {'size': 1024, 'k': 1, 'maxname': 2}, 'bounds': 'every 1024-byte segment; its first attribute record; names up to 2 characters', 'expect': ['rejected', 'resident', 'nonresident', 'end_marker']},
    {'name': 'any_4096_1', 'fn': h_any, 'cfg': {'size': 4096, 'k': 1, 'maxname': 1}, 'bounds': 'every 4096-byte segment; its first attribute record; names up to 1 character', 'expect': ['rejected', 'resident', 'nonresident', 'end_marker']},
    {'name': 'res_1024_2', 'fn': h_first, 'cfg': {'size': 1024, 'form': 0, 'maxname': 0}, 'bounds': 'every 1024-byte segment with a resident first attribute; two attribute records; no names', 'expect': ['rejected', 'resident', 'nonresident', 'end_marker', 'end_of_data']},
    {'name': 'non_1024_2', 'fn': h_first, 'cfg': {'size': 1024, 'form': 1, 'maxname': 0}, 'bounds': 'every 1024-byte segment with a nonresident first attribute; two attribute records; no names', 'expect': ['rejected', 'resident', 'nonresident', 'end_marker', 'end_of_data']},
    {'name': 'longname_0', 'fn': h_longname, 'cfg': {'form': 0}, 'bounds': 'resident record with a concrete 200-character name', 'expect': ['accepted', 'rejected']},
    {'name': 'longname_1', 'fn': h_longname, 'cfg': {'form': 1}, 'bounds': 'nonresident record with a concrete 200-character name', 'expect': ['accepted', 'rejected']},
    {'name': 'res_1024_2n', 'fn': h_first, 'cfg': {'size': 1024, 'form': 0, 'maxname': 1}, 'bounds': 'every 1024-byte segment with a resident first attribute; two attribute records; names up to 1 character', 'expect': ['rejected', 'resident', 'nonresident', 'end_marker', 'end_of_data'], 'tier': 'thorough'},
    {'name': 'any_1024_3', 'fn': h_any, 'cfg': {'size': 1024, 'k': 3, 'maxname': 0}, 'bounds': 'every 1024-byte segment; three attribute records without names', 'expect': ['rejected', 'resident', 'nonresident', 'end_marker', 'end_of_data'], 'tier': 'thorough'},
]
