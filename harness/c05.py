"""C05: mapping pairs."""
from dfir_ntfs import MFT
from harness.util import *

FILES = ['dfir_ntfs/MFT.py']
ASSUMPTIONS = []


def enc(ctx, v, width):
    """v as a two's complement little-endian field."""
    return (v % (1 << (8 * width))).to_bytes(width, 'little') if width else b''


def h_roundtrip(ctx, shape):
    """A canonical run list with the given field widths (count width, offset width; 0 = sparse) decodes to exactly those runs."""
    buf = b''
    want = []
    cur = 0
    for k, (cw, ow) in enumerate(shape):
        cnt = ctx.int('count', 1, (1 << (8 * cw - 1)) - 1)
        buf = buf + bytes([ow * 16 + cw]) + enc(ctx, cnt, cw)
        if ow:
            d = ctx.int('delta', -(1 << (8 * ow - 1)), (1 << (8 * ow - 1)) - 1)
            buf = buf + enc(ctx, d, ow)
            cur = cur + d
            if k > 0:
                ctx.assume(cur != 0)
            want.append((cur, cnt))
        else:
            want.append((None, cnt))
    tail = ctx.bytes('tail', 3)
    got = MFT.DecodeMappingPairs(buf + b'\x00' + tail)
    ctx.outcome('decoded')
    ctx.check(len(got) == len(want), 'number of runs')
    for (go, gc), (wo, wc) in zip(got, want):
        ctx.check(gc == wc, 'run length')
        if wo is None or go is None:
            ctx.check(wo is None and go is None, 'sparse run')
        else:
            ctx.check(go == wo, 'absolute position of a run')


def ref_decode(ctx, buf):
    """Reference decoder: list of runs, or None when the buffer is malformed."""
    i = 0
    cur = 0
    runs = []
    n = len(buf)
    while True:
        if i >= n:
            return None
        h = buf[i]
        if h == 0:
            return runs
        cw = h % 16
        ow = h // 16
        i += 1
        if ctx.fork(ctx.Or(cw < 1, cw > 8, ow > 8, i + cw + ow > n)):
            return None
        cw = ctx.concrete(cw)
        ow = ctx.concrete(ow)
        c = 0
        for k in range(cw):
            c = c + buf[i + k] * (1 << (8 * k))
        c = sext(ctx, c, 8 * cw)
        if c <= 0:
            return None
        i += cw
        if ow == 0:
            runs.append((None, c))
            continue
        d = 0
        for k in range(ow):
            d = d + buf[i + k] * (1 << (8 * k))
        cur = cur + sext(ctx, d, 8 * ow)
        i += ow
        if cur == 0 and len(runs) > 0:
            return None
        runs.append((cur, c))


def h_any(ctx, n, kind):
    raw = ctx.bytes('pairs', n)
    want = ref_decode(ctx, raw)
    try:
        got = MFT.DecodeMappingPairs(bytearray(raw) if kind == 'bytearray' else raw)
    except MFT.MappingPairsException:
        ctx.outcome('malformed')
        ctx.check(want is None, 'well-formed mapping pairs are rejected')
        return
    ctx.outcome('decoded')
    if want is None:
        ctx.fail('malformed mapping pairs are accepted')
    ctx.check(len(got) == len(want), 'number of runs')
    for (go, gc), (wo, wc) in zip(got, want):
        ctx.check(gc == wc, 'run length')
        if wo is None or go is None:
            ctx.check(wo is None and go is None, 'sparse run')
        else:
            ctx.check(go == wo, 'absolute position of a run')


def h_pattern(ctx, n, kinds):
    """n runs, each of any of the given kinds (widths), chosen independently."""
    h_roundtrip(ctx, [kinds[ctx.choice('kind%d' % k, list(range(len(kinds))))] for k in range(n)])


CASES = []
for _n, _k, _t in ((1, [(c, o) for c in range(1, 9) for o in range(9)], 'quick'), (5, [(1, 0), (1, 1), (2, 3)], 'quick'), (7, [(1, 0), (1, 1)], 'quick'),
                   (2, [(c, o) for c in (1, 2, 5, 8) for o in (0, 1, 3, 8)], 'quick'), (3, [(c, o) for c in (1, 3, 8) for o in (0, 2, 4, 8)], 'thorough'), (9, [(1, 0), (1, 1)], 'thorough')):
    CASES.append({'name': 'pattern_%d_%d' % (_n, len(_k)), 'fn': h_pattern, 'cfg': {'n': _n, 'kinds': _k}, 'bounds': '%d runs, each with (count width, offset width) any of %s, every value' % (_n, _k), 'expect': ['decoded'], 'tier': _t})
for _c in range(1, 9):
    for _o in range(0, 9):
        CASES.append({'name': 'rt_%d_%d' % (_c, _o), 'fn': h_roundtrip, 'cfg': {'shape': [(_c, _o)]}, 'bounds': 'one run, count width %d, offset width %d, every value' % (_c, _o), 'expect': ['decoded'], 'tier': 'thorough'})
SHAPES = [[(1, 1), (1, 1), (1, 1)], [(2, 3), (1, 0), (3, 2)], [(1, 0), (4, 4), (2, 1)], [(8, 8), (1, 0), (8, 8), (1, 1)], [(5, 6), (6, 5), (7, 7)], [(3, 4), (2, 0), (1, 2), (2, 0), (1, 1)],
          [(1, 0)], [(8, 8)], [(4, 7)], [(7, 1), (2, 8)], []]
for _k, _s in enumerate(SHAPES):
    CASES.append({'name': 'shape_%d' % _k, 'fn': h_roundtrip, 'cfg': {'shape': _s}, 'bounds': 'run list with field widths %s, every value' % (_s,), 'expect': ['decoded']})
for _n, _t in ((0, 'quick'), (1, 'quick'), (3, 'quick'), (5, 'quick'), (6, 'thorough'), (8, 'thorough')):
    CASES.append({'name': 'any_%d' % _n, 'fn': h_any, 'cfg': {'n': _n, 'kind': 'bytes'}, 'bounds': 'every buffer of %d bytes' % _n, 'tier': _t, 'expect': ['malformed'] + (['decoded'] if _n else [])})
CASES.append({'name': 'any_ba_4', 'fn': h_any, 'cfg': {'n': 4, 'kind': 'bytearray'}, 'bounds': 'every bytearray of 4 bytes', 'expect': ['malformed', 'decoded']})
