"""C08: lookup of file records and association of child segments with their base segment."""
from dfir_ntfs import MFT
from harness.util import *

FILES = ['dfir_ntfs/MFT.py', 'dfir_ntfs/Attributes.py']
ASSUMPTIONS = ['The number stored in a segment equals its position in the table (except in the short-header case, where it is absent).']
MARK = 0x100


def build(ctx, plan, size=1024, tail=0, pick=False):
    """plan: per record 'base' (concrete base), 'vol', 'bad' (invalid), 'sym' (anything), 'in' (in-use, any base reference). Returns (file, facts)."""
    data, facts = b'', []
    for i, what in enumerate(plan):
        attrs = [attr_resident(MARK, bytes([i] * 8))]
        f = {'valid': True, 'base': 0, 'seq': 1, 'used': True}
        if what == 'vol':
            attrs = [attr_resident(0x10, b'\x00' * 48), attr_nonresident(0x50, 0, 0, b'\x11\x01\x09\x00', 512, 64, 64)] + attrs + [attr_resident(0x70, VOLUME_INFO)]
        if what == 'bad':
            f['valid'] = False
            data = data + b'\x00' * size
        else:
            flags = 1
            if what in ('sym', 'in', 'BAAD', 'CHKD'):
                f['seq'] = ctx.int('seq%d' % i, 0, 0xFFFF)
                num = ctx.choice('bnum%d' % i, list(range(len(plan) + 1))) if pick else ctx.int('bnum%d' % i, 0, len(plan))
                bseq = ctx.int('bseq%d' % i, 0, 0xFFFF)
                f['base'] = num + (bseq << 48)
                if what == 'sym':
                    flags = ctx.int('flags%d' % i, 0, 3)
                    f['used'] = flags % 2 == 1
            seg = frs_build(attrs, i, seq=f['seq'], flags=flags, base=f['base'], size=size, short=(what == 'short'), sig=what.encode() if what in ('BAAD', 'CHKD') else b'FILE')
            data = data + seg
        facts.append(f)
    return ctx.file(data + b'FILE' * (tail // 4)), facts


def eff(ctx, f):
    """The sequence number the record had when it was last in use."""
    return ctx.If(f['used'], f['seq'], ctx.If(f['seq'] == 0, 0xFFFF, ctx.If(f['seq'] == 1, 1, f['seq'] - 1)))


def members(ctx, facts, i):
    """Segments that belong to base segment i, the base first."""
    ref = i + (eff(ctx, facts[i]) << 48)
    out = [i]
    for k, f in enumerate(facts):
        if f['valid'] and ctx.fork(ctx.And(f['base'] != 0, f['base'] == ref)):
            out.append(k)
    return out


def segments(ctx, fr):
    r = []
    for a in fr.attributes():
        if a.type_code == MARK:
            ctx.check(type(a) is MFT.AttributeRecordResident, 'marker')
            r.append(a.value[0])
    return r


def h_walk(ctx, plan, tail=0):
    f, facts = build(ctx, plan, tail=tail)
    mft = MFT.MasterFileTableParser(f)
    only = ctx.choice('only', [False, True])
    got = [r for r in (mft.file_records(True) if only else mft.file_records())]
    want = [i for i, x in enumerate(facts) if x['valid'] and ctx.fork(ctx.And(x['base'] == 0, ctx.Or(not only, x['used'])))]
    ctx.check(len(got) == len(want), 'number of file records')
    for r, i in zip(got, want):
        ctx.check(r.get_master_file_table_number() == i, 'order or number of file records')
        ctx.check(segments(ctx, r) == members(ctx, facts, i), 'segments of a file record')
        ctx.check(r.is_in_use() == facts[i]['used'], 'in-use state')
        ctx.check(r.get_sequence_number() == facts[i]['seq'], 'sequence number')
    valid = [x for x in facts if x['valid']]
    kids = 0
    for x in valid:
        kids = kids + ctx.If(x['base'] != 0, 1, 0)
    ctx.check(mft.statistics[0] == len(valid), 'number of segments')
    ctx.check(mft.statistics[1] == kids, 'number of child segments')
    ctx.outcome('walked')


def h_number(ctx, plan, n, allow, expect):
    f, facts = build(ctx, plan, pick=allow)
    mft = MFT.MasterFileTableParser(f)
    exp = ctx.int('expected', 0, 0xFFFF) if expect else None
    ok_base = -1
    if n < len(facts) and facts[n]['valid']:
        x = facts[n]
        if ctx.fork(ctx.Or(not expect, exp == eff(ctx, x))):
            if ctx.fork(x['base'] == 0):
                ok_base = n
            elif allow:
                for b, y in enumerate(facts):
                    if y['valid'] and ctx.fork(ctx.And(y['base'] == 0, x['base'] == b + (eff(ctx, y) << 48))):
                        ok_base = b
    try:
        r = mft.get_file_record_by_number(n, exp, allow)
    except MFT.MasterFileTableException:
        ctx.outcome('refused')
        ctx.check(ok_base < 0, 'an existing file record is not found')
        return
    ctx.check(ok_base >= 0, 'a stale, invalid or absent file record is returned')
    ctx.outcome('found' if ok_base == n else 'found_base')
    ctx.check(r.get_master_file_table_number() == ok_base, 'wrong file record')
    ctx.check(segments(ctx, r) == members(ctx, facts, ok_base), 'segments of a file record')


def h_segment(ctx, plan, n):
    f, facts = build(ctx, plan)
    mft = MFT.MasterFileTableParser(f, False)
    try:
        s = mft.get_file_record_segment_by_number(n)
    except MFT.MasterFileTableException:
        ctx.outcome('refused')
        ctx.check(n >= len(facts) or not facts[n]['valid'], 'an existing segment is not found')
        return
    ctx.outcome('found')
    ctx.check(n < len(facts) and facts[n]['valid'], 'an absent segment is returned')
    ctx.check(segments(ctx, s) == [n], 'wrong segment')
    ctx.check(s.get_master_file_table_number() == n, 'number of the segment')


def h_header(ctx):
    """The first bytes decide whether the file is a master file table; the version is checked."""
    maj, mnr = ctx.int('major', 0, 255), ctx.int('minor', 0, 255)
    raw = ctx.bytes('first', 4)
    size = ctx.int('size', 0, 0xFFFFFFFF)
    data = b''
    for i in range(4):
        attrs = [attr_resident(0x70, b'\x00' * 8 + p8(maj) + p8(mnr) + b'\x00\x00')] if i == 3 else []
        data = data + frs_build(attrs, i)
    data = raw + data[4:28] + p32(size) + data[32:]
    try:
        MFT.MasterFileTableParser(ctx.file(data))
    except MFT.MasterFileTableException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(ctx.And(raw == b'FILE', size == 1024, maj == 3, mnr >= 1)), 'a supported master file table is refused')
        return
    ctx.outcome('opened')
    ctx.check(ctx.And(raw == b'FILE', size == 1024, maj == 3, mnr >= 1), 'an unsupported master file table is opened')


P1 = ['base', 'sym', 'sym', 'vol']
P2 = ['base', 'in', 'in', 'vol', 'in']
P3 = ['base', 'bad', 'sym', 'vol', 'short', 'in']
P5 = ['base', 'BAAD', 'CHKD', 'vol']
P4 = ['base', 'sym', 'sym', 'vol', 'sym']
B = 'table of segments %s (sym: any sequence number, flags, base reference; in: any sequence number and base reference, in use)'
CASES = [
    {'name': 'header', 'fn': h_header, 'bounds': 'any signature, declared size and NTFS version', 'expect': ['opened', 'refused']},
    {'name': 'walk_1', 'fn': h_walk, 'cfg': {'plan': P1, 'tail': 100}, 'bounds': B % (P1,) + ' and a truncated one', 'expect': ['walked']},
    {'name': 'walk_2', 'fn': h_walk, 'cfg': {'plan': P2}, 'bounds': B % (P2,), 'expect': ['walked']},
    {'name': 'walk_3', 'fn': h_walk, 'cfg': {'plan': P3}, 'bounds': B % (P3,), 'expect': ['walked']},
    {'name': 'walk_5', 'fn': h_walk, 'cfg': {'plan': P5}, 'bounds': B % (P5,) + ', BAAD, CHKD: with this signature', 'expect': ['walked']},
    {'name': 'walk_4', 'fn': h_walk, 'cfg': {'plan': P4}, 'bounds': B % (P4,), 'expect': ['walked'], 'tier': 'thorough'},
]
for _n in (0, 1, 2, 4, 5):
    CASES.append({'name': 'segment_%d' % _n, 'fn': h_segment, 'cfg': {'plan': ['base', 'sym', 'bad', 'vol'], 'n': _n}, 'bounds': 'segment number %d of 4' % _n, 'expect': ['found'] if _n in (0, 1) else ['refused']})
    for _a in (True, False):
        for _e in (True, False):
            if _n in (0, 5) and not (_a and _e):
                continue
            CASES.append({'name': 'number_%d_%d%d' % (_n, _a, _e), 'fn': h_number, 'cfg': {'plan': P1, 'n': _n, 'allow': _a, 'expect': _e}, 'bounds': B % (P1,) + ', record %d, expected sequence number %s, child allowed %s' % (_n, 'any' if _e else 'none', _a),
                          'expect': (['found'] if _n < 4 else []) + (['refused'] if _n > 0 and (_e or not _a) else []) + (['found_base'] if _a and _n in (1, 2) else []), 'tier': 'thorough' if _n == 2 and not _a else 'quick'})
