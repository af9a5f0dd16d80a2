"""C26: reading a shadow copy as a file."""
from dfir_ntfs import ShadowCopy
from harness.util import *
from harness.shadowutil import *

FILES = ['dfir_ntfs/ShadowCopy.py']
ASSUMPTIONS = ['Volumes of 12 blocks of 16384 bytes, one store, positions and sizes from a list around the boundaries of blocks, 512-byte blocks and the volume.']
N = 12


def image(ctx, two, size, base=0):
    """Blocks 6..9 have arbitrary content; block 8 of the shadow copy is stored in block 6, block 9 has an overlay from block 7."""
    content = {k: ctx.bytes('blk%d' % k, BLK, array=True) for k in (6, 7, 8, 9, 10)}
    s = Store(1, [(8 * BLK, 0, 6 * BLK, 0, 0), (9 * BLK, 0, 7 * BLK, 2, 0x80000003)], bitmap=[k == 10 for k in range(16)], flags=0x400, size=size)
    if not two:
        extra = {('v', k): content[k] for k in content}
        return build(ctx, [s], N, N, False, extra), content
    sto = {k: ctx.bytes('sto%d' % k, BLK, array=True) for k in (6, 7)}
    extra = {('v', k): content[k] for k in content}
    extra.update({('s', k): sto[k] for k in sto})
    return build(ctx, [s], N, N, True, extra), {'s6': sto[6], 's7': sto[7]}


def want_byte(ctx, content, two, img, pos):
    """The byte of the shadow copy at a symbolic position."""
    blk, o = pos // BLK, pos % BLK
    d6, d7 = (content['s6'], content['s7']) if two else (content[6], content[7])
    sub = o // 512
    over = ctx.Or(sub == 0, sub == 1, sub == 31)
    return ctx.If(blk == 8, ctx.byte_at(d6, o), ctx.If(ctx.And(blk == 9, over), ctx.byte_at(d7, o), ctx.If(blk == 10, 0, ctx.byte_at(img, pos))))


def h_read(ctx, two, size, given, places, sizes, base=0):
    img, content = image(ctx, two, size)
    # block 10 has data which the shadow copy does not show
    p = parser(ctx, img, two, given, base)
    p.select_shadow(1)
    limit = size if given is None or given > size else given
    ctx.check(p.tell() == 0, 'initial position')
    at = ctx.choice('at', places)
    n = ctx.choice('n', sizes)
    ctx.check(p.seek(at) == at, 'seek')
    got = p.read(n)
    left = max(limit - at, 0)
    want = left if n is None or n < 0 else min(n, left)
    ctx.check(len(got) == want, 'number of bytes read')
    ctx.check(p.tell() == at + len(got), 'position after reading')
    ctx.outcome('empty' if want == 0 else 'data')
    if want == 0 or len(got) != want:
        return
    j = ctx.int('j', 0, want - 1)
    ctx.check(ctx.byte_at(got, j) == want_byte(ctx, content, two, img[0], at + j), 'content')


def h_debug(ctx):
    """The debug view: blocks that are empty or at their original place are shown as a pattern."""
    img, content = image(ctx, False, 12 * BLK)
    p = parser(ctx, img, False)
    p.select_shadow(1)
    at = ctx.choice('at', [7 * BLK, 8 * BLK, 9 * BLK, 10 * BLK])
    p.seek(at)
    got = p.read(BLK, True)
    ctx.outcome('debug')
    ctx.check(len(got) == BLK, 'number of bytes read')
    if len(got) != BLK:
        return
    j = ctx.int('j', 0, BLK - 1)
    if at == 8 * BLK:
        want = ctx.byte_at(content[6], j)
    else:
        text = b'EMPTY           ' if at == 10 * BLK else b'ORIGINAL        '
        want = ctx.byte_at(text * (BLK // 16), j)
        if at == 9 * BLK:
            want = ctx.If(ctx.Or(j < 1024, j >= 31 * 512), ctx.byte_at(content[7], j), want)
    ctx.check(ctx.byte_at(got, j) == want, 'content')


def h_seek(ctx, two):
    size = ctx.int('size', 1, 1 << 50)
    given = ctx.choice('given', [None, 1 << 20])
    s = Store(1, [], size=size)
    img = build(ctx, [s], N, N, two)
    p = parser(ctx, img, two, given)
    for what in (lambda: p.seek(0), lambda: p.read(1), lambda: p.tell(), lambda: p.translate_exact_offset(0)):
        try:
            what()
        except ValueError:
            pass
        else:
            ctx.fail('a shadow copy can be read before it is selected')
    p.select_shadow(1)
    limit = size if given is None else ctx.If(size > given, given, size)
    pos = 0
    for k in range(2):
        wh = ctx.choice('whence%d' % k, [0, 1, 2, 3])
        off = ctx.int('off%d' % k, -(1 << 51), 1 << 51)
        target = {0: off, 1: pos + off, 2: limit + off, 3: None}[wh]
        try:
            got = p.seek(off, wh)
        except ValueError:
            ctx.outcome('refused')
            if target is not None:
                ctx.check(target < 0, 'a valid position is refused')
        else:
            ctx.outcome('moved')
            ctx.check(target is not None, 'an unknown mode is accepted')
            if target is None:
                return
            ctx.check(ctx.And(target >= 0, got == target), 'wrong position')
            pos = target
        ctx.check(p.tell() == pos, 'tell')


def h_trunc(ctx, two):
    """The image ends in the middle of a block: what is there is returned."""
    img, content = image(ctx, two, 12 * BLK)
    cut = ctx.choice('cut', [9 * BLK + 512 * 2 + 100, 9 * BLK + 1024, 9 * BLK + 513 * 3, 11 * BLK + 512])
    imgs = (img[0][:cut], img[1]) if two else (img[0][:cut], None)
    p = parser(ctx, imgs, two, None)
    p.select_shadow(1)
    at = ctx.choice('at', [8 * BLK, 9 * BLK + 100, 9 * BLK + 1536, 11 * BLK])
    n = ctx.choice('n', [100, 2 * BLK, None])
    p.seek(at)
    got = p.read(n)
    have = 12 * BLK if n is None else min(at + n, 12 * BLK)
    ctx.outcome('read')
    ctx.check(ctx.And(len(got) <= have - at, p.tell() == at + len(got)), 'number of bytes read')
    if len(got) == 0:
        ctx.check(at >= cut or at // BLK == cut // BLK, 'nothing is read before the end of the image')
        return
    j = ctx.int('j', 0, len(got) - 1)
    pos = at + j
    sub = pos % BLK // 512
    stored = ctx.Or(pos // BLK == 8, pos // BLK == 10, ctx.And(pos // BLK == 9, ctx.Or(sub == 0, sub == 1, sub == 31)))
    ctx.check(ctx.Or(pos < cut, stored), 'bytes that are not in the image')
    ctx.check(ctx.byte_at(got, j) == want_byte(ctx, content, two, img[0], pos), 'content')


def h_again(ctx, two, order):
    """Two shadow copies are read in turn with one parser: each selection starts at the beginning and shows its own data."""
    content = {k: ctx.bytes('blk%d' % k, BLK, array=True) for k in (6, 7, 8, 9)}
    s1 = Store(1, [(8 * BLK, 0, 6 * BLK, 0, 0)], size=12 * BLK)
    s2 = Store(2, [(9 * BLK, 0, 7 * BLK, 0, 0)], size=11 * BLK)
    extra = {('v', k): content[k] for k in content}
    src = content
    if two:
        sto = {k: ctx.bytes('sto%d' % k, BLK, array=True) for k in (6, 7)}
        extra.update({('s', k): sto[k] for k in sto})
        src = dict(content)
        src.update(sto)
    img = build(ctx, [s2, s1], N, N, two, extra)
    p = parser(ctx, img, two)
    for sel in order:
        p.select_shadow(sel)
        ctx.check(p.tell() == 0, 'the position of a shadow copy that was just selected')
        size = 12 * BLK if sel == 1 else 11 * BLK
        ctx.check(p.seek(0, 2) == size, 'size of the selected shadow copy')
        p.seek(8 * BLK)
        got = p.read(3 * BLK - 5) if sel == 1 else p.read(2 * BLK)
        ctx.check(len(got) == (3 * BLK - 5 if sel == 1 else 2 * BLK), 'number of bytes read')
        j = ctx.int('j%d' % sel, 0, len(got) - 1)
        o = j % BLK
        first = ctx.byte_at(src[6] if sel == 1 else content[8], o)
        second = ctx.byte_at(src[7], o)
        ctx.check(ctx.byte_at(got, j) == ctx.If(j < BLK, first, ctx.If(j < 2 * BLK, second, 0)), 'content')
        ctx.outcome('read%d' % sel)


CASES = []
PLACES = [0, 511, 8 * BLK - 1, 8 * BLK, 9 * BLK - 3, 9 * BLK + 1024, 10 * BLK - 512, 10 * BLK + 5]
for two in (False, True):
    t = '_two' if two else ''
    w = ', a separate storage volume' if two else ''
    CASES += [
        {'name': 'read' + t, 'fn': h_read, 'cfg': {'two': two, 'size': 12 * BLK, 'given': None, 'places': PLACES, 'sizes': [0, 1, 2, 513, BLK, BLK + 7, 2 * BLK + 1]}, 'bounds': 'positions and sizes around the boundaries, every content' + w, 'expect': ['data', 'empty']},
        {'name': 'end' + t, 'fn': h_read, 'cfg': {'two': two, 'size': 9 * BLK + 0x1200, 'given': None, 'places': [8 * BLK, 9 * BLK, 9 * BLK + 0x1000, 9 * BLK + 0x11FF, 9 * BLK + 0x1200, 9 * BLK + 0x1201, 11 * BLK], 'sizes': [1, 512, BLK, 2 * BLK, 5 * BLK, -1, None]}, 'bounds': 'reads up to and past a size that is not a multiple of the block size' + w, 'expect': ['data', 'empty']},
        {'name': 'given' + t, 'fn': h_read, 'cfg': {'two': two, 'size': 12 * BLK, 'given': 9 * BLK + 512, 'places': [8 * BLK + 5, 9 * BLK, 9 * BLK + 511, 9 * BLK + 512, 10 * BLK], 'sizes': [1, 512, BLK, 2 * BLK, 4 * BLK, -1, None]}, 'bounds': 'the size of the volume is given by the caller' + w, 'expect': ['data', 'empty']},
        {'name': 'base' + t, 'fn': h_read, 'cfg': {'two': two, 'size': 12 * BLK, 'given': None, 'places': [8 * BLK - 1, 9 * BLK, 10 * BLK - 1], 'sizes': [2, 1024, BLK + 2], 'base': 1536}, 'bounds': 'a volume that does not start at the beginning of the image' + w, 'expect': ['data']},
        {'name': 'seek' + t, 'fn': h_seek, 'cfg': {'two': two}, 'bounds': 'two seeks with every offset and mode' + w, 'expect': ['moved', 'refused']},
        {'name': 'again' + t, 'fn': h_again, 'cfg': {'two': two, 'order': (1, 2, 1)}, 'bounds': 'two shadow copies read in turn, every content' + w, 'expect': ['read1', 'read2']},
        {'name': 'again_back' + t, 'fn': h_again, 'cfg': {'two': two, 'order': (2, 1, 1)}, 'bounds': 'two shadow copies read in turn, one of them twice, every content' + w, 'expect': ['read1', 'read2']},
        {'name': 'trunc' + t, 'fn': h_trunc, 'cfg': {'two': two}, 'bounds': 'truncated images' + w, 'expect': ['read']},
    ]
CASES.append({'name': 'debug', 'fn': h_debug, 'cfg': {}, 'bounds': 'one block of each kind, every content', 'expect': ['debug']})
