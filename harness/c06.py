"""C06: the file-like view of a nonresident file."""
from dfir_ntfs import MFT
from harness.util import *

FILES = ['dfir_ntfs/MFT.py']
ASSUMPTIONS = ['Data runs come from valid mapping pairs: positive lengths, non-negative cluster numbers.']
TOP = 1 << 40


def setup(ctx, cs, shape, wf, bits, lens=None):
    """bits: width of lengths, cluster numbers, volume offset."""
    runs = []
    total = 0
    base = ctx.int('base', 0, (1 << bits[2]) - 1)
    end = 0
    for k, sparse in enumerate(shape):
        length = lens[k] if lens else ctx.int('length', 1, (1 << bits[0]) - 1)
        lcn = None if sparse else ctx.int('lcn', 0, (1 << bits[1]) - 1)
        runs.append((lcn, length))
        total = total + length
    top = 1 << (max(bits[1], bits[0]) + cs.bit_length() + 2)
    fsize = ctx.int('file_size', 0, top)
    vsize = (1 << 60) if wf else ctx.int('vol_size', 0, top + (1 << bits[2]))
    vol = ctx.volume('vol', vsize)
    if wf:
        ctx.assume(fsize <= total * cs)
    ctx.vsize = vsize
    return vol, base, runs, fsize, top


def content(ctx, vol, base, cs, runs, pos):
    """(inside a run, inside the volume, byte) at file offset pos."""
    vcn, off = pos // cs, pos % cs
    start = 0
    known, val, ok = False, 0, True
    for lcn, length in runs:
        here = ctx.And(vcn >= start, vcn < start + length)
        known = ctx.Or(known, here)
        if lcn is None:
            val = ctx.If(here, 0, val)
        else:
            at = base + (lcn + vcn - start) * cs
            val = ctx.If(here, vol.byte(at + off), val)
            ok = ctx.And(ok, ctx.Or(ctx.Not(here), at + off < ctx.vsize))
        start = start + length
    return known, ok, val


def read_check(ctx, f, vol, base, cs, runs, fsize, pos, n, j, wf):
    """One read() at pos: returns the new position or None after an error."""
    left = ctx.If(fsize > pos, fsize - pos, 0)
    want = left if n is None else ctx.If(n < 0, left, ctx.If(n < left, n, left))
    try:
        data = f.read() if n is None else f.read(n)
    except MFT.MasterFileTableException:
        ctx.outcome('error')
        ctx.check(not wf, 'a readable range is reported as an error')
        return None
    ctx.check(len(data) == want, 'number of bytes read')
    ctx.check(f.tell() == pos + want, 'position after a read')
    if ctx.fork(ctx.And(j >= 0, j < want)):
        ctx.outcome('data')
        known, ok, val = content(ctx, vol, base, cs, runs, pos + j)
        if not wf:
            ctx.check(ctx.And(known, ok), 'data read from outside the data runs or the volume')
        ctx.check(ctx.byte_at(data, j) == val, 'content')
    else:
        ctx.outcome('other')
    return pos + want


def h_read(ctx, cs, shape, maxn, wf, bits, reads=1, all_=False, lens=None):
    vol, base, runs, fsize, top = setup(ctx, cs, shape, wf, bits, lens)
    pos = ctx.int('pos', 0, top)
    j = ctx.int('j', 0, maxn)
    f = MFT.FragmentedFile(vol, base, cs, list(runs), fsize)
    ctx.check(f.tell() == 0, 'initial position')
    ctx.check(f.seek(pos) == pos, 'value returned by seek')
    for k in range(reads):
        n = None
        if all_:
            ctx.assume(fsize - pos <= maxn)
        else:
            n = ctx.int('n', -1, maxn)
            ctx.assume(ctx.Or(n >= 0, fsize - pos <= maxn))
        pos = read_check(ctx, f, vol, base, cs, runs, fsize, pos, n, j, wf)
        if pos is None:
            return


def h_seek(ctx):
    fsize = ctx.int('file_size', 0, TOP)
    f = MFT.FragmentedFile(ctx.volume('vol', 4096), 0, 512, [(0, 8)], fsize)
    cur = 0
    for k in range(3):
        whence = ctx.choice('whence', [0, 1, 2, 3])
        off = ctx.int('off', -TOP, TOP)
        base = [0, cur, fsize, 0][whence]
        try:
            r = f.seek(off) if whence == 0 and k == 0 else f.seek(off, whence)
        except ValueError:
            ctx.outcome('refused')
            ctx.check(ctx.Or(whence == 3, base + off < 0), 'a valid seek is refused')
        else:
            ctx.outcome('moved')
            ctx.check(whence != 3, 'invalid whence accepted')
            ctx.check(base + off >= 0, 'negative position accepted')
            cur = base + off
            ctx.check(r == cur, 'value returned by seek')
        ctx.check(f.tell() == cur, 'tell() after seek()')


CASES = [
    {'name': 'seek', 'fn': h_seek, 'bounds': 'every sequence of 3 seeks (any whence and offset)', 'expect': ['moved', 'refused']},
]


def case(name, cs, shape, maxn, wf, bits, tier='quick', **kw):
    CASES.append({'name': name, 'fn': h_read, 'cfg': dict(kw, cs=cs, shape=shape, maxn=maxn, wf=wf, bits=bits), 'tier': tier, 'expect': ['data', 'other'] + ([] if wf else ['error']),
                  'bounds': '%s; runs (0 allocated, 1 sparse) %s, run length %s, cluster number < 2^%d, volume offset < 2^%d, cluster size %d, any file position, %d read(s) of up to %d bytes'
                  % ('readable volume' if wf else 'any volume size', shape, kw['lens'] if 'lens' in kw else '< 2^%d' % bits[0], bits[1], bits[2], cs, kw.get('reads', 1), maxn)})


case('read_512', 512, [0, 1, 0], 700, True, (2, 8, 10))
case('read_4096', 4096, [0, 0], 5000, True, (3, 8, 10))
case('read_1024', 1024, [1, 0], 2100, True, (2, 8, 10))
case('large', 4096, [0], 100, True, (31, 40, 48))
case('any_512', 512, [0, 1, 0], 600, False, (2, 6, 10))
case('two_reads', 512, [0], 100, True, (2, 4, 4), reads=2)
case('sparse_then_two', 512, [0, 1, 0, 0], 700, True, (2, 8, 10), lens=[1, 1, 1, 2])
case('two_reads_2', 512, [0, 0], 300, True, (2, 6, 10), tier='thorough', reads=2)
case('read_all', 512, [0, 1, 0], 700, True, (2, 8, 10), all_=True)
case('wide_512', 512, [0, 1, 0], 700, True, (8, 16, 24), tier='thorough')
case('read_65536', 65536, [0, 1, 0, 0], 70000, True, (4, 12, 16), tier='thorough')
case('two_reads_4', 2048, [0, 1, 0], 4200, True, (4, 12, 16), tier='thorough', reads=2)
case('any_4096', 4096, [0, 1, 0, 0], 9000, False, (4, 12, 16), tier='thorough')
