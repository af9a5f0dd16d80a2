"""C41: timestamps carved from file control blocks in a memory image."""
from dfir_ntfs import MFT, Attributes
from harness.util import *

FILES = ['dfir_ntfs/MFT.py', 'dfir_ntfs/Attributes.py']
ASSUMPTIONS = ['Apart from the blocks under test, the image holds no bytes 02 07 at an even offset and no plausible timestamps.']
LO, HI = 123000000000000000, 135000000000000000
SIG = b'\x02\x07'
T = [0x01D1000000000101, 0x01D2000000000303, 0x01D3000000000505, 0x01D4000000000909, 0x01D5000000001111]
FILL = 0xEE


def fcb(size, ref, dup, times, real_at, real):
    """A block: signature, reference at 8, the four timestamps at dup, the in-memory access time at real_at."""
    b = SIG + bytes([FILL]) * 6 + p64(ref)
    b = b + bytes([FILL]) * (dup - len(b)) + p64(times[0]) + p64(times[1]) + p64(times[2]) + p64(times[3])
    b = b + bytes([FILL]) * (real_at - len(b)) + p64(real)
    return b + bytes([FILL]) * (size - len(b))


def moment(ctx, tag, mids):
    """Any 64-bit value with the middle bits of one of the limits, so that no misaligned part of it is plausible."""
    mid = ctx.choice('mid' + tag, mids)
    return u64(p64(ctx.int('low' + tag, 0x400, 0xFFFF) + (mid << 16) + (ctx.int('top' + tag, 0, 0xFFFF) << 48)), 0)


def plausible(ctx, t):
    return ctx.And(t >= LO, t <= HI)


MIDS = [(LO >> 16) & 0xFFFFFFFF, (HI >> 16) & 0xFFFFFFFF]


def image(ctx, blocks, step, tail=0):
    """blocks: one every `step` bytes, 4096 // step in a page; the rest of a page is filler. Returns (file, positions)."""
    per = 4096 // step
    out, pos = b'', []
    for k in range(0, len(blocks), per):
        page = b''
        for b in blocks[k:k + per]:
            pos.append(len(out) + len(page))
            page = page + b + bytes([FILL]) * (step - len(b))
        out = out + page + (bytes([FILL]) * (4096 - len(page)) if k + per < len(blocks) else b'')
    return ctx.file(out + bytes([FILL]) * tail), pos


def verify(ctx, got, want):
    ctx.check(len(got) == len(want), 'number of carved blocks')
    for g, (pos, ref, dup, t, real_at, real) in zip(got, want):
        ctx.check(g.positions == (pos, dup, real_at), 'position of a carved block')
        ctx.check(g.possible_file_reference == ref, 'file reference')
        ctx.check(g.ctime == Attributes.DecodeFiletime(t[0]), 'created')
        ctx.check(g.mtime == Attributes.DecodeFiletime(t[1]), 'modified')
        ctx.check(g.etime == Attributes.DecodeFiletime(t[2]), 'entry modified')
        ctx.check(g.atime == Attributes.DecodeFiletime(t[3]), 'accessed')
        ctx.check(g.atime_real == Attributes.DecodeFiletime(real), 'accessed (in memory)')


def usual(k, dup, real_at):
    """Block k of those that are not under test."""
    t = [x + (k << 40) for x in T]
    return (0x1000 + k, dup, t[:4], real_at, t[4])


def h_one(ctx, which, n, at, dup, real_at, step):
    """n blocks, the one at index `at` under test: one of its timestamps and its reference are arbitrary."""
    t, real = list(T[:4]), T[4]
    ref = ctx.int('ref', 0, 0xFF) + 0x7777777777777700
    if which < 4:
        t[which] = moment(ctx, '', MIDS)
        ok = plausible(ctx, t[which])
    else:
        real = moment(ctx, '', MIDS)
        ok = plausible(ctx, real)
    blocks, want = [], []
    for k in range(n):
        f = (ref, dup, t, real_at, real) if k == at else usual(k, dup, real_at)
        blocks.append(fcb(real_at + 8, *f))
        want.append(f)
    img, pos = image(ctx, blocks, step)
    good = ctx.fork(ok)
    want = [(p,) + f for k, (p, f) in enumerate(zip(pos, want)) if good or k != at]
    try:
        got = [x for x in MFT.MetadataCarver(img).carve_fcb_timestamps()]
    except ValueError:
        ctx.outcome('refused')
        ctx.check(len(want) < 25, 'enough blocks are refused')
        return
    ctx.check(len(want) >= 25, 'too few blocks are accepted')
    ctx.outcome('all' if good else 'others')
    verify(ctx, got, want)


def h_layouts(ctx, n, m, a=(64, 160), b=(72, 176)):
    """n blocks of one layout and m of another one: the layout of the majority counts."""
    flip = ctx.choice('flip', [False, True])
    if flip:
        a, b = b, a
    ref = ctx.int('ref', 0, 0xFF) + 0x7777777777777700
    blocks, fields = [], []
    for k in range(n + m):
        la = b if k % 3 == 1 and k // 3 < m or (n + m - k) <= m - len([i for i in range(k) if i % 3 == 1 and i // 3 < m]) else a
        f = usual(k, *la)
        if k == 0:
            f = (ref,) + f[1:]
        blocks.append(fcb(la[1] + 8, *f))
        fields.append(f)
    img, pos = image(ctx, blocks, 256)
    na = len([f for f in fields if (f[1], f[3]) == a])
    want = [(p,) + f for p, f in zip(pos, fields) if (f[1], f[3]) == a]
    try:
        got = [x for x in MFT.MetadataCarver(img).carve_fcb_timestamps()]
    except ValueError:
        ctx.outcome('refused')
        ctx.check(na < 20 or n + m < 25, 'enough blocks are refused')
        return
    ctx.outcome('carved')
    ctx.check(na >= 20 and n + m >= 25, 'offsets are guessed from inconclusive data')
    verify(ctx, got, want)


def h_edges(ctx, tail):
    """The last page is cut; a block that is not complete there is left out; a last page below 512 bytes is not used."""
    dup, real_at = 64, 160
    ref = ctx.int('ref', 0, 0xFF) + 0x7777777777777700
    blocks = [fcb(real_at + 8, *usual(k, dup, real_at)) for k in range(32)]
    img, pos = image(ctx, blocks, 256)
    last = fcb(real_at + 8, ref, dup, T[:4], real_at, T[4])
    data = b''
    for b in blocks:
        data = data + b + bytes([FILL]) * 88
    end = bytes([FILL]) * (tail - 168) + last if tail >= 168 else last[:tail]
    cut = ctx.choice('cut', [0, 1, 8])
    end = end[:len(end) - cut]
    data = data + end
    want = [(p,) + usual(k, dup, real_at) for k, p in enumerate(pos)]
    if len(end) >= 512 and cut == 0 and (tail - 168) % 2 == 0:
        ctx.outcome('last')
        want.append((8192 + tail - 168, ref, dup, T[:4], real_at, T[4]))
    else:
        ctx.outcome('cut')
    got = [x for x in MFT.MetadataCarver(ctx.file(data)).carve_fcb_timestamps()]
    verify(ctx, got, want)


def h_crossing(ctx):
    """Blocks do not go on from one page to the next, and a false signature hides nothing."""
    dup, real_at = 64, 160
    ref = ctx.int('ref', 0, 0xFF) + 0x7777777777777700
    off = ctx.choice('off', [0, 2, 20])
    data, want = b'', []
    for p in range(2):
        page = b''
        for k in range(14):
            f = (ref,) + usual(k, dup, real_at)[1:] if p == 0 and k == 3 else usual(p * 14 + k, dup, real_at)
            junk = bytes([FILL]) * off + (SIG + bytes([FILL]) * 22 if k % 4 == 3 else b'')
            page = page + junk
            want.append((p * 4096 + len(page),) + f)
            page = page + fcb(real_at + 8, *f)
            page = page + bytes([FILL]) * (256 - (len(page) % 256)) if len(page) % 256 else page
        cross = fcb(real_at + 8, *usual(40, dup, real_at))
        page = page + bytes([FILL]) * (4096 - len(page) - 100) + cross[:100]
        data = data + page
    try:
        got = [x for x in MFT.MetadataCarver(ctx.file(data)).carve_fcb_timestamps()]
    except ValueError:
        ctx.fail('enough blocks are refused')
    ctx.outcome('carved')
    verify(ctx, got, want)


CASES = []
for which in range(5):
    CASES.append({'name': 'one_%d' % which, 'fn': h_one, 'cfg': {'which': which, 'n': 30, 'at': (0, 3, 17, 28, 29)[which], 'dup': 64, 'real_at': 160, 'step': 256}, 'expect': ['all', 'others'],
                  'bounds': '30 blocks in 2 pages, timestamp %d of one of them any value near the limits' % which})
for which, n in ((1, 25), (4, 26), (0, 24)):
    CASES.append({'name': 'few_%d' % n, 'fn': h_one, 'cfg': {'which': which, 'n': n, 'at': 5, 'dup': 72, 'real_at': 176, 'step': 256}, 'expect': ['refused'] if n < 26 else ['all', 'others'],
                  'bounds': '%d blocks' % n})
CASES.append({'name': 'limits', 'fn': h_one, 'cfg': {'which': 2, 'n': 28, 'at': 9, 'dup': 142, 'real_at': 206, 'step': 256}, 'expect': ['all', 'others'], 'bounds': 'the timestamps at the last offset that is searched'})
CASES.append({'name': 'close', 'fn': h_one, 'cfg': {'which': 3, 'n': 28, 'at': 9, 'dup': 24, 'real_at': 80, 'step': 88}, 'expect': ['all', 'others'], 'bounds': 'blocks right after one another'})
for n, m in ((22, 8), (19, 8), (20, 5), (20, 4)):
    CASES.append({'name': 'layouts_%d_%d' % (n, m), 'fn': h_layouts, 'cfg': {'n': n, 'm': m}, 'expect': ['carved' if n >= 20 and n + m >= 25 else 'refused'], 'bounds': '%d blocks of one layout, %d of another one' % (n, m)})
for n, m in ((22, 8), (19, 8)):
    for what, b in (('real', (64, 176)), ('dup', (72, 160))):
        CASES.append({'name': 'layouts_%s_%d' % (what, n), 'fn': h_layouts, 'cfg': {'n': n, 'm': m, 'b': b}, 'expect': ['carved' if n >= 20 else 'refused'], 'bounds': '%d blocks of one layout, %d that differ in one of the two offsets' % (n, m)})
for tail in (512, 513, 600, 510, 300):
    CASES.append({'name': 'edges_%d' % tail, 'fn': h_edges, 'cfg': {'tail': tail}, 'expect': ['cut'], 'bounds': 'a last page of %d bytes' % tail})
CASES.append({'name': 'crossing', 'fn': h_crossing, 'cfg': {}, 'expect': ['carved'], 'bounds': '28 blocks, false signatures, blocks cut by the end of a page'})
