"""C12: directory index entries."""
from dfir_ntfs import MFT
from dfir_ntfs import Attributes as A
from harness.util import *

FILES = ['dfir_ntfs/Attributes.py', 'dfir_ntfs/MFT.py']
ASSUMPTIONS = ['The relative offsets of the index header are at most 4096 above the size of the value (larger ones behave alike: outside the value).']


def h_entries(ctx, kind, size, first, k):
    """Walk at most k entries of an index with arbitrary content."""
    raw = ctx.bytes('v', size, array=True)
    base = 16 if kind == 'root' else 24
    f, free = u32(raw, base), u32(raw, base + 4)
    ctx.assume(ctx.And(f == first, free <= size + 4096))
    obj = A.IndexRoot(raw) if kind == 'root' else A.IndexBuffer(bytearray(raw))
    it = iter(obj.index_entries())
    pos = base + first
    for n in range(k):
        e = next(it, None)
        avail = size - pos
        inside = ctx.And(pos < base + free, pos < size)
        whole = avail >= 16
        ln = a16(ctx, raw, pos + 8)
        al = a16(ctx, raw, pos + 10)
        if e is None:
            ctx.outcome('end after %d' % n)
            ctx.check(ctx.Or(ctx.Not(inside), ctx.Not(whole), ln < 16, al == 0), 'enumeration stopped before the end of the index')
            return
        ctx.outcome('entry')
        ctx.check(ctx.And(inside, whole), 'an index entry outside the used part of the index')
        fl = a16(ctx, raw, pos + 12)
        ctx.check(ctx.And(ln >= 16, al > 0), 'an invalid index entry is reported')
        ctx.check(ctx.And(e.get_file_reference() == a64(ctx, raw, pos), e.get_length() == ln, e.get_attribute_length() == al, e.get_flags() == fl), 'fields of an index entry')
        if n == 0:
            contents(ctx, e, raw, pos, ln, al, fl, size)
        if ctx.fork(fl & 2 > 0):
            ctx.outcome('end entry')
            if kind != 'root':
                ctx.check(next(it, None) is None, 'entries after the end entry')
            return
        pos = pos + (ln + 7) // 8 * 8
        if ctx.fork(pos >= size):
            ctx.outcome('last')
            ctx.check(next(it, None) is None, 'entries beyond the index')
            return
        pos = ctx.concrete(pos)


def contents(ctx, e, raw, pos, ln, al, fl, size):
    attr = e.get_attribute()
    j = ctx.int('j', 0, size)
    if ctx.fork(fl & 2 > 0):
        ctx.check(attr is None, 'an attribute in the end entry')
    else:
        ctx.check(attr is not None, 'no attribute')
        if ctx.fork(ctx.And(16 + al <= ln, pos + ln <= size)):
            ctx.outcome('attribute')
            ctx.check(len(attr) == al, 'length of the attribute')
        ctx.check(len(attr) <= size - pos - 16, 'length of the attribute')
        if ctx.fork(j < len(attr)):
            ctx.check(ctx.byte_at(attr, j) == ctx.byte_at(raw, pos + 16 + j), 'attribute')
    vcn = e.get_vcn()
    if ctx.fork(ctx.And(fl & 1 > 0, pos + ln <= size)):
        ctx.outcome('node')
        ctx.check(vcn is not None, 'no subnode')
        ctx.check(vcn == a64(ctx, raw, pos + ln - 8), 'subnode VCN')
    else:
        ctx.check(vcn is None, 'a subnode for an entry without one')


def h_fields(ctx):
    v = ctx.bytes('v', 64)
    r = A.IndexRoot(v)
    h = r.get_index_header()
    ctx.outcome('fields')
    ctx.check(ctx.And(r.get_indexed_attribute_type_code() == u32(v, 0), r.get_collation_rule() == u32(v, 4), r.get_bytes_per_index_buffer() == u32(v, 8)), 'fields of an index root')
    ctx.check(ctx.And(h.get_first_index_entry() == u32(v, 16), h.get_first_free_byte() == u32(v, 20), h.get_bytes_available() == u32(v, 24), h.get_flags() == v[28]), 'index header')
    b = A.IndexBuffer(v)
    h = b.get_index_header()
    ctx.check(ctx.And(b.get_logfile_sequence_number() == u64(v, 8), b.get_this_block() == u64(v, 16)), 'fields of an index buffer')
    ctx.check(ctx.And(h.get_first_index_entry() == u32(v, 24), h.get_first_free_byte() == u32(v, 28), h.get_bytes_available() == u32(v, 32), h.get_flags() == v[36]), 'index header')


def h_slack(ctx):
    n = 128
    v = ctx.bytes('v', n)
    b = A.IndexBuffer(v)
    s = b.get_slack()
    free = 24 + u32(v, 28)
    ctx.outcome('slack' if ctx.fork(free < n) else 'no slack')
    ctx.check(len(s) == ctx.If(free < n, n - free, 0), 'length of the slack space')
    j = ctx.int('j', 0, n)
    if ctx.fork(free + j < n):
        ctx.check(ctx.byte_at(s, j) == ctx.byte_at(v, free + j), 'slack space')


def h_blocks(ctx):
    """The slack spaces of all the index buffers of an allocation."""
    usn = 7
    data = b''
    want = []
    for i in range(2):
        free = ctx.int('free', 0, 1500)
        b = b'INDX' + p16(40) + p16(3) + b'\x00' * 16 + p32(64) + p32(free) + p32(1000) + p32(0) + p16(usn) + p16(0) + p16(0)
        b = b + bytes([i + 1]) * (510 - len(b)) + p16(usn) + bytes([i + 101]) * 510 + p16(usn)
        data = data + b
        n = ctx.If(24 + free < 1024, 1000 - free, 0)
        if ctx.fork(n > 8):
            want.append((n, i))
    got = A.IndexAllocation(ctx.file(data)).get_slack()
    ctx.outcome('%d slack spaces' % len(want))
    ctx.check(len(got) == len(want), 'number of slack spaces')
    for g, (n, i) in zip(got, want):
        ctx.check(len(g) == n, 'length of the slack space')
        ctx.check(ctx.byte_at(g, len(g) - 3) == i + 101, 'slack space')


def index_buffer(ctx, n, good, block, fill):
    """n sectors of 512 bytes; a buffer that is not good is torn in its last sector."""
    usn = 7
    b = b'INDX' + p16(40) + p16(n + 1) + b'\x00' * 8 + p64(block) + p32(64) + p32(n * 512 - 24) + p32(n * 512 - 24) + p32(0) + p16(usn) + b'\0\0' * n
    b = b + bytes([fill]) * (510 - len(b)) + p16(usn)
    for k in range(1, n):
        b = b + bytes([fill]) * 510 + p16(usn if good or k + 1 < n else 3)
    return b


def h_alloc(ctx):
    """Every intact buffer is reported, whatever precedes it and wherever the caller has moved the file."""
    good = [ctx.bool('good%d' % i) for i in range(4)]
    blocks = [ctx.int('block%d' % i, 0, (1 << 64) - 1) for i in range(4)]
    g = [ctx.fork(v) for v in good]
    data = b''
    for i in range(4):
        data = data + index_buffer(ctx, 2, g[i], blocks[i], i + 1)
    rest = ctx.choice('rest', [0, 1, 512, 1023])
    f = ctx.file(data + b'\x55' * rest)
    ia = A.IndexAllocation(f)
    want = [i for i in range(4) if g[i]] if g[0] else []
    ctx.outcome('%d buffers' % len(want))
    ctx.check(ia.index_buffer_size == (1024 if g[0] else None), 'size of a buffer')
    for again in range(2):
        got = []
        for b in ia.index_buffers():
            got.append(b)
            f.seek(ctx.choice('move%d_%d' % (again, len(got)), [0, 1024, 4096] if again else [700]) if len(got) < 3 else 5)
        ctx.check(len(got) == len(want), 'number of buffers')
        for b, i in zip(got, want):
            ctx.check(b.get_this_block() == blocks[i], 'a buffer is reported at a wrong place')


def h_volume(ctx, voff, csize):
    """Index buffers in the clusters of a volume (also a buffer in two runs and buffers behind the end of the index)."""
    good = [True] + [ctx.fork(ctx.bool('good%d' % i)) for i in (1, 2)]
    blocks = [ctx.int('block%d' % i, 0, (1 << 64) - 1) for i in range(3)]
    bufs = [index_buffer(ctx, 2, good[i], blocks[i], i + 1) for i in range(3)]
    data = bufs[0] + bufs[1] + bufs[2]
    n = 3072 // csize
    size = ctx.choice('size', [1024, 2047, 2048, 3072])
    first = ctx.choice('first', [2, 9])
    second = ctx.choice('second', [6, 12])
    a = 1 if csize > 512 else 3
    vol = b''
    runs = {}
    for k in range(n):
        runs[first + k if k < a else second + k - a] = data[k * csize:(k + 1) * csize]
    for k in range(16):
        vol = vol + (runs[k] if k in runs else bytes([k + 1]) * csize)
    pairs = b'\x11' + p8(a) + p8(first) + b'\x11' + p8(n - a) + p8((second - first) & 0xFF) + b'\0'
    seg = MFT.FileRecordSegment(frs_build([attr_nonresident(0xA0, 0, n - 1, pairs, 3072, size, size)], 40), True, 40)
    attr = [x for x in seg.attributes()][0]
    ia = attr.value_decoded(ctx.file(b'\x77' * voff + vol), voff, csize)
    want = [blocks[i] for i in range(3) if good[i] and (i + 1) * 1024 <= size]
    ctx.outcome('%d' % len(want))
    got = list(ia.index_buffers())
    ctx.check(len(got) == len(want), 'number of buffers')
    for b, w in zip(got, want):
        ctx.check(b.get_this_block() == w, 'a wrong buffer')


def h_large(ctx):
    n = ctx.choice('n', [1, 2, 3, 8, 127, 128, 129, 233, 234, 235])
    block = ctx.int('block', 0, (1 << 64) - 1)
    data = index_buffer(ctx, n, True, block, 5)
    ia = A.IndexAllocation(ctx.file(data))
    ok = 2 <= n <= 234
    ctx.outcome('known' if ok else 'unknown')
    got = list(ia.index_buffers())
    ctx.check(ia.index_buffer_size == (512 * n if ok else None), 'size of a buffer')
    ctx.check(len(got) == (1 if ok else 0), 'number of buffers')
    if ok:
        ctx.check(got[0].get_this_block() == block, 'block number')


E = ['entry', 'end after 0', 'attribute', 'node', 'end entry']
CASES = [
    {'name': 'root', 'fn': h_entries, 'cfg': {'kind': 'root', 'size': 80, 'first': 16, 'k': 3}, 'bounds': 'every 80-byte index root whose entries start at 16; up to 3 entries', 'expect': E},
    {'name': 'buffer', 'fn': h_entries, 'cfg': {'kind': 'buffer', 'size': 104, 'first': 40, 'k': 3}, 'bounds': 'every 104-byte index block whose entries start at 40; up to 3 entries', 'expect': E},
    {'name': 'root_odd', 'fn': h_entries, 'cfg': {'kind': 'root', 'size': 75, 'first': 21, 'k': 2}, 'bounds': 'every 75-byte index root whose entries start at 21; up to 2 entries', 'expect': E},
    {'name': 'buffer_far', 'fn': h_entries, 'cfg': {'kind': 'buffer', 'size': 1024, 'first': 944, 'k': 3}, 'bounds': 'every 1024-byte index block whose entries start at 944; up to 3 entries', 'expect': E},
    {'name': 'root_short', 'fn': h_entries, 'cfg': {'kind': 'root', 'size': 40, 'first': 16, 'k': 1}, 'bounds': 'every 40-byte index root', 'expect': ['end after 0']},
    {'name': 'buffer_short', 'fn': h_entries, 'cfg': {'kind': 'buffer', 'size': 70, 'first': 40, 'k': 1}, 'bounds': 'every 70-byte index block', 'expect': ['end after 0']},
    {'name': 'fields', 'fn': h_fields, 'bounds': 'every value', 'expect': ['fields']},
    {'name': 'slack', 'fn': h_slack, 'bounds': 'every 128-byte index block', 'expect': ['slack', 'no slack']},
    {'name': 'allocation', 'fn': h_alloc, 'bounds': 'four index buffers of 1024 bytes, intact or torn, and a partial one', 'expect': ['0 buffers', '1 buffers', '2 buffers', '3 buffers', '4 buffers']},
    {'name': 'allocation_large', 'fn': h_large, 'bounds': 'index buffers of 512 to 120320 bytes', 'expect': ['known', 'unknown']},
    {'name': 'allocation_slack', 'fn': h_blocks, 'bounds': 'two index buffers with any used size up to 1500', 'expect': ['0 slack spaces', '1 slack spaces', '2 slack spaces']},
]
for _voff, _c in ((0, 512), (1536, 512), (512, 1024)):
    CASES.append({'name': 'volume_%d_%d' % (_voff, _c), 'fn': h_volume, 'cfg': {'voff': _voff, 'csize': _c}, 'expect': ['1', '2', '3'], 'bounds': 'three buffers in two runs of a volume, four sizes'})
