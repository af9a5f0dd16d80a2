"""C40: opening the master file table of a volume from its boot sector, however fragmented the table is."""
from dfir_ntfs import MFT, BootSector
from harness.util import *

FILES = ['dfir_ntfs/MFT.py', 'dfir_ntfs/Attributes.py', 'dfir_ntfs/BootSector.py']
ASSUMPTIONS = ['The extents that hold the segments read while the table is opened are placed at one of a few concrete clusters; the other extents are placed anywhere.']
MARK = 0x100
DATA, LIST = 0x80, 0x20


def boot(bps, spc, mft, frs=0xF6):
    b = b'\xeb\x52\x90NTFS    ' + p16(bps) + p8(spc) + b'\x00' * 26 + p64(1 << 40) + p64(mft) + p64(2) + p8(frs) + b'\x00' * 3 + p8(0xF4) + b'\x00' * 3 + p64(0x1122334455667788)
    return b + b'\x00' * (510 - len(b)) + b'\x55\xaa'


def run(n, delta):
    """One mapping pair: 4 bytes for the length, 8 for the (signed) delta."""
    return b'\x84' + p32(n) + p64(delta % (1 << 64))


def pairs(runs):
    """runs: (lcn or None, length)."""
    out, last = b'', 0
    for lcn, n in runs:
        if lcn is None:
            out = out + b'\x04' + p32(n)
        else:
            out = out + run(n, lcn - last)
            last = lcn
    return out + b'\x00'


def data_attr(lowest, runs, size=0, name=b'', tc=DATA):
    n = 0
    for _, k in runs:
        n = n + k
    return attr_nonresident(tc, lowest, lowest + n - 1, pairs(runs), size, size, size, name=name)


def entry(tc, lowest, number, seq=1, name=b''):
    n = 26 + len(name)
    pad = -n % 8
    return p32(tc) + p16(n + pad) + bytes([len(name) // 2, 26]) + p64(lowest) + p64(number + (seq << 48)) + p16(0) + name + b'\x00' * pad


def volume(ctx, slots, csize, voff, n):
    """slots: {cluster: bytes}; everything else is filled with 0x5A."""
    out = b'\xa5' * voff
    for c in range(n):
        d = slots.get(c, b'')
        assert len(d) <= csize
        out = out + d + b'\x5a' * (csize - len(d))
    return ctx.file(out)


def rec(i, extra=(), size=1024, seq=1, base=0, flags=1):
    a = [attr_resident(0x70, VOLUME_INFO)] if i == 3 else []
    return frs_build(list(extra) + a + [attr_resident(MARK, bytes([i]) * 8)], i, size=size, seq=seq, base=base, flags=flags)


def opened(ctx, v, voff, runs, size, csize):
    ctx.check(v.volume_offset == voff, 'offset of the volume')
    ctx.check(v.cluster_size == csize, 'cluster size')
    got = list(v.data_runs)
    ctx.check(len(got) == len(runs), 'number of data runs of the table')
    for (go, gl), (wo, wl) in zip(got, runs):
        ctx.check((go is None) == (wo is None), 'sparse run')
        if wo is not None:
            ctx.check(go == wo, 'first cluster of a run of the table')
        ctx.check(gl == wl, 'length of a run of the table')
    ctx.check(v.file_size == size, 'size of the table')
    ctx.check(v.tell() == 0, 'the table is not positioned at its start')


def h_plain(ctx, bps, spc, fsize, voff, where):
    """One segment, up to three runs anywhere."""
    mft = ctx.choice('mft', where)
    kind = ctx.choice('kind', ['data', 'data', 'split', 'resident', 'none', 'named', 'later', 'invalid', 'boot'])
    nr = ctx.choice('runs', [1, 2, 3])
    runs = [(ctx.int('lcn%d' % k, 1, (1 << 50)), ctx.int('len%d' % k, 1, 0x7FFFFFFF)) for k in range(nr)]
    size = ctx.int('size', 1, 1 << 60)
    if kind == 'data':
        attrs = [data_attr(0, runs, size)]
    elif kind == 'split':
        first = runs[:1]
        attrs = [data_attr(0, first, size)] + ([data_attr(first[0][1], runs[1:])] if nr > 1 else [])
    elif kind == 'resident':
        attrs = [attr_resident(DATA, b'abc')]
    elif kind == 'named':
        attrs = [data_attr(0, runs, size, name=b'x\x00')]
    elif kind == 'later':
        attrs = [data_attr(1, runs, size)]
    else:
        attrs = [] if kind == 'none' else [data_attr(0, runs, size)]
    csize = bps * spc
    seg = rec(0, attrs, fsize)
    if kind == 'invalid':
        at = ctx.choice('broken', [0, 4, 510])
        seg = seg[:at] + b'\x00\x00' + seg[at + 2:]
    b = boot(bps, spc, mft, {1024: 0xF6, 4096: (4096 // csize if csize <= 4096 else 0xF4)}[fsize])
    if kind == 'boot':
        what = ctx.choice('field', ['name', 'bps', 'spc', 'mft'])
        at, new = {'name': (3, b'NTFT'), 'bps': (11, b'\x00\x00'), 'spc': (13, b'\x00'), 'mft': (48, b'\x00' * 8)}[what]
        b = b[:at] + new + b[at + len(new):]
    slots = {0: b}
    k = 0
    while k * csize < fsize:
        slots[mft + k] = seg[k * csize:(k + 1) * csize]
        k += 1
    f = volume(ctx, slots, csize, voff, max(where) + k + 1)
    try:
        v = MFT.FileSystemParser(f, voff) if voff else MFT.FileSystemParser(f)
    except (MFT.MasterFileTableException, BootSector.BootSectorException):
        ctx.outcome('refused')
        ctx.check(kind in ('resident', 'none', 'named', 'later', 'invalid', 'boot'), 'a valid volume is refused')
        return
    ctx.outcome('opened')
    ctx.check(kind in ('data', 'split'), 'a volume without a usable master file table is opened')
    opened(ctx, v, voff, runs, size, csize)
    ctx.check(v.boot.get_first_mft_cluster() == mft, 'boot sector')


def h_list(ctx, csize, voff, resident, order, noise, parts, fill=0, inside=False):
    """The table is described by several segments; each is found in the part described so far."""
    spc = csize // 512
    per = max(csize // 1024, 1)   # segments per cluster
    need = (4 * 1024 + csize - 1) // csize  # clusters of the first part (segments 0-3)
    mft = ctx.choice('mft', [6, 9])
    p1 = [(mft, need)]
    used = need
    lcn2 = ctx.choice('second', [20, 3] if csize <= 1024 else [16, 3])
    n2 = 2 if csize < 1024 else 1
    # the second part is described by segment 1 or 2, the third one by a segment inside the second part
    s2 = ctx.choice('seg2', [1, 2])
    s3 = 3 - s2 if inside else used * csize // 1024  # (or by the other segment in the first part)
    p2 = [(lcn2, n2)]
    tail = [(ctx.int('lcn', 1, 1 << 50), ctx.int('len', 1, 1000)), (ctx.int('lcn', 1, 1 << 50), ctx.int('len', 1, 1000))]
    size = ctx.int('size', used * csize + 2048, 1 << 60)
    extents = [(0, 0, p1), (need, s2, p2 if parts > 2 else p2 + tail)]
    if parts > 2:
        extents.append((need + n2, s3, tail))
    seqs = [ctx.int('seq%d' % k, 0, 0xFFFF) for k in range(parts)]
    es = [entry(DATA, lo, s, seqs[k]) for k, (lo, s, _) in enumerate(extents)]
    es = [es[k] for k in order]
    if noise:
        es = [entry(0x10, 0, 0), entry(DATA, 0, 900, name=b'a\x00')] + es + [entry(0xB0, need, 900)]
    es = [entry(0x30, 0, 0, name=b'n\x00' * 4)] * fill + es
    lst = b''
    for e in es:
        lst = lst + e
    slots = {0: boot(512, spc, mft)}
    segs = {0: rec(0, [], 1024)}
    if resident:
        la = attr_resident(LIST, lst)
    else:
        k = (len(lst) + csize - 1) // csize
        lat = ctx.choice('list', [[1], [2]] if k == 1 else [[1, 2], [2, 1]])
        for n, c in enumerate(lat):
            slots[c] = lst[n * csize:(n + 1) * csize]
        la = attr_nonresident(LIST, 0, k - 1, pairs([(c, 1) for c in lat]), csize * k, len(lst), len(lst))
    segs[0] = rec(0, [la, data_attr(0, p1, size)])
    segs[1] = rec(1)
    segs[2] = rec(2)
    segs[3] = rec(3)
    segs[s2] = rec(s2, [data_attr(need, extents[1][2])], base=1 << 48)
    if parts > 2:
        segs[s3] = rec(s3, [data_attr(need + n2, tail)], base=1 << 48)
    runs = p1 + p2 + tail
    for i, d in segs.items():
        off = i * 1024
        for piece in range(0, 1024, min(csize, 1024)):
            vcn = (off + piece) // csize
            lcn = mft + vcn if vcn < need else lcn2 + vcn - need
            cur = slots.get(lcn, b'')
            assert len(cur) == (off + piece) % csize
            slots[lcn] = cur + d[piece:piece + min(csize, 1024)]
    f = volume(ctx, slots, csize, voff, 23)
    v = MFT.FileSystemParser(f, voff)
    ctx.outcome('opened')
    opened(ctx, v, voff, runs, size, csize)
    m = MFT.MasterFileTableParser(v, False)
    i = ctx.choice('read', sorted(segs))
    s = m.get_file_record_segment_by_number(i)
    got = [a.value for a in s.attributes() if a.type_code == MARK]
    ctx.check(len(got) == 1 and got[0] == bytes([i]) * 8, 'a segment of the table is not read from its place')


def h_refused(ctx, resident):
    """Attribute lists that cannot describe the table."""
    mft, need = 4, 4
    kind = ctx.choice('kind', ['ok', 'empty', 'other', 'named', 'first', 'gap', 'bad', 'beyond', 'sparse', 'truncated', 'nodata'])
    n2, lcn = ctx.int('len', 1, 1000), ctx.int('lcn', 1, 1 << 50)
    size = ctx.int('size', 8192, 1 << 40)
    es = [entry(0x10, 0, 0), entry(DATA, 0, 0), entry(DATA, 4, 1)]
    number = 1
    if kind == 'empty':
        es = []
    elif kind == 'other':
        es = es[:1]
    elif kind == 'named':
        es = [es[0], entry(DATA, 0, 0, name=b'q\x00')]
    elif kind == 'first':
        num = ctx.int('num', 1, 3)
        es = [es[0], entry(DATA, 0, num), es[2]]
    elif kind == 'beyond':
        number = ctx.int('num', 1 << 31, (1 << 48) - 1)
        es = [es[0], es[1], entry(DATA, 4, number)]
    lst = b''
    for e in es:
        lst = lst + e
    slots = {0: boot(512, 2, mft)}
    if resident:
        ctx.assume(kind not in ('sparse', 'truncated'))
        la = attr_resident(LIST, lst)
    else:
        at = 1
        if kind == 'truncated':
            at = ctx.int('at', 30, 1 << 50)
        slots[1] = lst
        la = attr_nonresident(LIST, 0, 0, pairs([(None if kind == 'sparse' else at, 1)]), 1024, len(lst), len(lst))
    low = 4
    if kind == 'gap':
        low = ctx.int('low', 0, 1 << 40)
        ctx.assume(low != 4)
    slots[mft] = rec(0, [la, data_attr(0, [(mft, 4)], size)])
    slots[mft + 1] = rec(1, [] if kind == 'nodata' else [data_attr(low, [(lcn, n2)])], base=1 << 48)
    if kind == 'bad':
        slots[mft + 1] = b'\x00' * 1024
    slots[mft + 2] = rec(2)
    slots[mft + 3] = rec(3)
    f = volume(ctx, slots, 1024, 0, 12)
    try:
        v = MFT.FileSystemParser(f)
    except MFT.MasterFileTableException:
        ctx.outcome('refused')
        ctx.check(kind not in ('ok', 'nodata'), 'a valid volume is refused')
        return
    ctx.outcome('opened')
    ctx.check(kind in ('ok', 'nodata'), 'a table that is not described completely is opened')
    opened(ctx, v, 0, [(mft, 4)] + ([] if kind == 'nodata' else [(lcn, n2)]), size, 1024)


CASES = [
    {'name': 'plain_512', 'fn': h_plain, 'cfg': {'bps': 512, 'spc': 1, 'fsize': 1024, 'voff': 512, 'where': [3, 7]}, 'expect': ['opened', 'refused'],
     'bounds': 'cluster 512 bytes, volume at offset 512, $MFT at cluster 3 or 7, up to 3 runs with any length and cluster, any size'},
    {'name': 'plain_1024', 'fn': h_plain, 'cfg': {'bps': 512, 'spc': 2, 'fsize': 1024, 'voff': 0, 'where': [2, 5]}, 'expect': ['opened', 'refused'],
     'bounds': 'cluster 1024 bytes, volume at offset 0, otherwise as plain_512'},
    {'name': 'plain_4096', 'fn': h_plain, 'cfg': {'bps': 1024, 'spc': 4, 'fsize': 4096, 'voff': 1536, 'where': [1, 2]}, 'expect': ['opened', 'refused'],
     'bounds': 'sector 1024, cluster 4096, segment 4096 bytes, volume at offset 1536'},
    {'name': 'plain_4k_frs', 'fn': h_plain, 'cfg': {'bps': 512, 'spc': 2, 'fsize': 4096, 'voff': 0, 'where': [2, 5]}, 'expect': ['opened', 'refused'],
     'bounds': 'cluster 1024, segment 4096 bytes (4 clusters)'},
]
for res in (True, False):
    for csize, voff, order, noise, parts in ((1024, 0, [0, 1, 2], False, 3), (1024, 512, [2, 1, 0], True, 3), (512, 1024, [1, 0, 2], True, 3), (4096, 0, [0, 2, 1], False, 3), (1024, 512, [1, 0], False, 2)):
        CASES.append({'name': 'list_%s_%d_%d%s' % ('res' if res else 'nonres', csize, parts, ''.join(map(str, order))), 'fn': h_list,
                      'cfg': {'csize': csize, 'voff': voff, 'resident': res, 'order': order, 'noise': noise, 'parts': parts}, 'expect': ['opened'],
                      'bounds': '%s attribute list, cluster %d bytes, volume at offset %d, $DATA in %d segments listed in the order %s; last runs and size symbolic' % ('resident' if res else 'nonresident', csize, voff, parts, order)})
    CASES.append({'name': 'refused_' + ('res' if res else 'nonres'), 'fn': h_refused, 'cfg': {'resident': res}, 'expect': ['refused', 'opened'],
                  'bounds': '11 ways in which an attribute list may (fail to) describe the table; runs and sizes symbolic'})
CASES.append({'name': 'list_nonres_long', 'fn': h_list, 'cfg': {'csize': 512, 'voff': 0, 'resident': False, 'order': [0, 2, 1], 'noise': False, 'parts': 3, 'fill': 11}, 'expect': ['opened'],
              'bounds': 'nonresident attribute list in two runs (in either order on the volume), 14 entries, one of them across the runs'})
for res in (True, False):
    for csize, order in ((1024, [0, 1, 2]), (512, [0, 2, 1]), (4096, [2, 1, 0])):
        CASES.append({'name': 'list_inside_%s_%d' % ('res' if res else 'nonres', csize), 'fn': h_list, 'cfg': {'csize': csize, 'voff': 512, 'resident': res, 'order': order, 'noise': False, 'parts': 3, 'inside': True}, 'expect': ['opened'],
                      'bounds': 'both other parts are described by segments of the first part, in either order of their numbers'})
