"""C01: multi-sector protection of file record segments."""
import struct
from dfir_ntfs import MFT

FILES = ['dfir_ntfs/MFT.py']
ASSUMPTIONS = ['The update sequence array does not overlap the last two bytes of the first 512-byte stride.']


def u16(b, o):
    return struct.unpack('<H', b[o:o + 2])[0]


def u32(b, o):
    return struct.unpack('<L', b[o:o + 4])[0]


def h_usa(ctx, size):
    n = size // 512
    raw = ctx.bytes('frs', size, array=True)
    usa_offset = u16(raw, 4)
    usa_size = u16(raw, 6)
    first_free = u32(raw, 24)
    # assumption: the array itself lies before the first protected word
    ctx.assume(ctx.Or(usa_offset + usa_size * 2 <= 510, usa_offset < 42, usa_offset > 506, usa_size != n + 1))
    j = ctx.int('j', 0, size - 1)
    try:
        frs = MFT.FileRecordSegment(raw)
    except MFT.FileRecordSegmentException:
        ctx.outcome('rejected')
        # nothing torn in the used region and a well-formed header: must not be rejected
        sig = raw[0:4]
        wf = ctx.And(sig == b'FILE', usa_offset >= 42, usa_offset <= 506, usa_size == n + 1, u32(raw, 28) == size,
                     first_free >= 48, first_free <= size, u16(raw, 20) % 8 == 0, u16(raw, 20) >= usa_offset + usa_size * 2, u16(raw, 20) <= size - 24)
        if not wf:
            return
        usn = u16(raw, usa_offset)
        for k in range(1, n + 1):
            wf = ctx.And(wf, ctx.Or((k - 1) * 512 >= first_free, u16(raw, 512 * k - 2) == usn))
        ctx.check(ctx.Not(wf), 'a well-formed segment that is intact in its used region is rejected')
        return
    ctx.outcome('accepted')
    out = frs.frs_data
    ctx.check(len(out) == size, 'length changed')
    usn = u16(raw, usa_offset)
    for k in range(1, n + 1):
        stored = u16(raw, 512 * k - 2)
        upd = u16(raw, usa_offset + 2 * k)
        fin = u16(out, 512 * k - 2)
        used = (k - 1) * 512 < first_free
        ctx.check(ctx.Implies(used, stored == usn), 'a torn stride inside the used region is accepted')
        ctx.check(ctx.Implies(used, fin == upd), 'the protected word of a used stride is not restored')
        ctx.check(ctx.Or(fin == upd, fin == stored), 'a protected word is neither restored nor left alone')
        ctx.check(ctx.Implies(stored != usn, fin == stored), 'the word of a torn stride is replaced')
    intact = True
    for k in range(1, n + 1):
        intact = ctx.And(intact, u16(raw, 512 * k - 2) == usn)
    for k in range(1, n + 1):
        ctx.check(ctx.Implies(intact, u16(out, 512 * k - 2) == u16(raw, usa_offset + 2 * k)), 'a word of an intact segment is not restored')
    ctx.check(ctx.Implies(ctx.And(j % 512 != 510, j % 512 != 511), ctx.byte_at(out, j) == ctx.byte_at(raw, j)), 'a byte outside the protected words changed')


CASES = [
    {'name': 'usa_1024', 'fn': h_usa, 'cfg': {'size': 1024}, 'bounds': 'every 1024-byte segment', 'expect': ['accepted', 'rejected']},
    {'name': 'usa_4096', 'fn': h_usa, 'cfg': {'size': 4096}, 'bounds': 'every 4096-byte segment', 'expect': ['accepted', 'rejected']},
]
