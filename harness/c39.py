"""C39: file names carved from slack space."""
from dfir_ntfs import MFT
from harness.util import *

FILES = ['dfir_ntfs/MFT.py', 'dfir_ntfs/Attributes.py']
ASSUMPTIONS = ['In the slack space around the file names under test, no other four consecutive values are plausible timestamps.']
LO, HI = 125000000000000000, 145000000000000000
GOOD = [0x01D5000000000001, 0x01D6000000000003, 0x01D7000000000005, 0x01D8000000000007]
FF = b'\xff' * 8


def fn(parent, times, nl, name, flags=0):
    """A $FILE_NAME value; nl is the recorded length, name the bytes that are there."""
    return parent + p64(times[0]) + p64(times[1]) + p64(times[2]) + p64(times[3]) + p64(0x10) + p64(0x20) + p32(0x20) + p32(0) + p8(nl) + p8(flags) + name


def times(ctx, which, tag=''):
    """One symbolic timestamp; returns (timestamps, all plausible)."""
    t = list(GOOD)
    if which is None:
        return t, True
    mid = ctx.choice('mid' + tag, [(LO >> 16) & 0xFFFFFFFF, (HI >> 16) & 0xFFFFFFFF] if tag in ('', '1') else [(HI >> 16) & 0xFFFFFFFF])
    low = ctx.int('low' + tag, 0x400, 0xFFFF)
    t[which] = low + (mid << 16) + (ctx.int('top' + tag, 0, 0xFFFF) << 48)
    return t, ctx.And(t[which] >= LO, t[which] <= HI)


def name_ok(ctx, nl, raw):
    """The part of the name that is there is a plausible file name."""
    units = [u16(raw, k) for k in range(0, len(raw) - 1, 2)]
    c = nl > 0
    if len(raw) == 0:
        return False
    for k, u in enumerate(units):
        c = ctx.And(c, ctx.Or(nl <= k, ctx.And(u != 0, u != 0x2F)))
    return c


def same(ctx, got, parent, t, nl, flags):
    ctx.check(type(got) is MFT.Attributes.FileName, 'kind of the carved item')
    v = got.value
    ctx.check(v[:8] == parent, 'parent directory of a carved file name')
    for k in range(4):
        ctx.check(u64(v, 8 + 8 * k) == t[k], 'timestamp of a carved file name')
    ctx.check(v[64] == nl, 'length of a carved file name')
    ctx.check(v[65] == flags, 'flags of a carved file name')


def h_one(ctx, chars, which):
    """A single file name behind some bytes, possibly cut on either side."""
    head = ctx.choice('head', [0, 2, 4, 6, 8, 9, 10, 11, 16, 33])   # bytes before the timestamps
    t, ok = times(ctx, which)
    nl = ctx.int('nl', 0, 255)
    name = ctx.bytes('name', 2 * chars)
    for k in range(chars):
        ctx.assume(ctx.Or(u16(name, 2 * k) < 0xD800, u16(name, 2 * k) > 0xDFFF))
    flags = ctx.int('flags', 0, 3)
    junk = b'\x01\xff' * 32
    parent = p16(ctx.int('parent', 0x400, 0xFFFF)) + b'\x33\x44\x55\x66\x05\x00'
    e = fn(parent, t, nl, name, flags)
    tail = ctx.choice('tail', [0, 1, 2])
    val = (junk[:head - 8] + e if head >= 8 else e[8 - head:]) + b'\x00' * tail
    whole = name + b'\x00' * tail
    want = False
    par = parent
    if (head - len(val) % 2) % 2 == 0 and (head >= 8 or head in (0, 4)):
        want = ctx.And(ok, name_ok(ctx, nl, whole))
        if head < 8:
            par = FF
    got = [x for x in MFT.SlackSpace(val).carve()]
    ctx.check(len(got) <= 1, 'a file name is carved twice')
    if got:
        ctx.outcome('carved')
        ctx.check(want, 'something that is not a file name is carved')
        same(ctx, got[0], par, t, nl, flags)
        s = got[0].get_file_name()
        ctx.check(len(s) >= 1, 'empty name')
        if ctx.fork(nl <= chars):
            ctx.check(len(s) == nl, 'length of the decoded name')
            if chars:
                ctx.check(ord(s[0]) == u16(name, 0), 'decoded name')
    else:
        ctx.outcome('nothing')
        ctx.check(ctx.Not(want), 'a file name in slack space is not carved')


def h_two(ctx, gap, chars, which, over=0):
    """Two file names one after another: each is reported once, in order."""
    t1, ok1 = times(ctx, which, '1')
    t2, ok2 = times(ctx, (which + 1) % 4, '2')
    nl = ctx.int('nl', 0, 255)
    name = ctx.bytes('name', 2 * chars)
    for k in range(chars):
        ctx.assume(ctx.And(u16(name, 2 * k) < 0xD800, u16(name, 2 * k) != 0, u16(name, 2 * k) != 0x2F))
    p1, p2 = b'\x11' * 6 + b'\x01\x00', b'\x22' * 6 + b'\x02\x00'
    e1 = fn(p1, t1, nl, name)
    e2 = fn(p2, t2, 2, b'a\x00b\x00', 1)
    rest = b'\x00\x10' * (gap // 2) + e2
    ctx.assume(ctx.Or(nl <= chars, nl <= chars + gap // 2 + over))
    val = b'\x07' * 4 + e1 + rest
    got = [x for x in MFT.SlackSpace(val).carve()]
    w1 = ctx.And(ok1, name_ok(ctx, nl, name + rest[:gap + 2 * over]))
    want = []
    if ctx.fork(w1):
        want.append((p1, t1, nl, 0))
    if ctx.fork(ok2):
        want.append((p2, t2, 2, 1))
    ctx.outcome('%d' % len(want))
    ctx.check(len(got) == len(want), 'number of carved file names')
    for g, w in zip(got, want):
        same(ctx, g, *w)


def h_several(ctx):
    """A list of slack spaces: each of them is carved on its own."""
    vals, want = [], []
    for k in range(3):
        t, ok = times(ctx, k, str(k))
        p = bytes([k + 1]) * 8
        nl = ctx.int('nl%d' % k, 0, 2)
        vals.append(b'\x09' * (2 * k) + fn(p, t, nl, b'x\x00y\x00', k))
        if ctx.fork(ctx.And(ok, nl > 0)):
            want.append((p, t, nl, k))
    got = [x for x in MFT.SlackSpace(vals).carve()]
    ctx.outcome('%d' % len(want))
    ctx.check(len(got) == len(want), 'number of carved file names')
    for g, w in zip(got, want):
        same(ctx, g, *w)


def h_short(ctx):
    """Slack spaces too small for a file name."""
    n = ctx.choice('n', [0, 1, 7, 8, 9, 31, 32, 39, 40, 64, 65])
    val = (FF + p64(GOOD[0]) + p64(GOOD[1]) + p64(GOOD[2]) + p64(GOOD[3]) + ctx.bytes('rest', 26))[:n]
    got = [x for x in MFT.SlackSpace(val).carve(ctx.choice('partial', [False, True]))]
    ctx.outcome('empty')
    ctx.check(len(got) == 0, 'a file name without a name is carved')


PRINTABLE = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!"#$%&\'()*+,-.;<=>?@[]^_`{|}~ \t'


def printable(ctx, u):
    """Letters, digits and the punctuation that may appear in a name; not / : \\ or control characters."""
    return ctx.Or(u == 9, ctx.And(u >= 0x20, u <= 0x7E, u != 0x2F, u != 0x3A, u != 0x5C))


def h_partial(ctx, units, free, odd=0, which=None):
    """Bytes of an overwritten name before the first full file name; `free` of the units are arbitrary, the others are letters."""
    raw, u = b'', []
    for k in range(units):
        if k in free:
            b = ctx.bytes('u%d' % k, 2)
            u.append(u16(b, 0))
            ctx.assume(ctx.Or(u[k] < 0x180, u[k] > 0x280))
        else:
            b = bytes([0x41 + k, 0])
            u.append(0x41 + k)
        raw = raw + b
    t, ok = times(ctx, which)
    e = fn(b'\x00\x00\x11\x11\x00\x00\x01\x01', t, 1, b'z\x00')
    val = b'\x00' * odd + raw + e
    partial = ctx.choice('partial', [True, False])
    # the last run of at least five printable characters, not counting the zeros at the end
    end = units
    while end > 0 and ctx.fork(u[end - 1] == 0):
        end -= 1
    runs, n = None, 0
    best = None
    k = end
    while k > 0:
        k -= 1
        if ctx.fork(printable(ctx, u[k])):
            n += 1
        else:
            if n >= 5:
                break
            n = 0
        first = k if n else None
    names = [None]
    if n >= 5:
        start = [i for i in range(units) if i < end]
        # position of the run that was found: it starts right after the character that stopped the search (or at 0)
        lo = k + 1 if not ctx.fork(printable(ctx, u[k])) else k
        names = [u[lo:lo + n]]
        if lo == 0 and odd == 0:  # the first two bytes of the slack space may be left out
            names.append(u[1:n] if n > 5 else None)
    got = [x for x in MFT.SlackSpace(val).carve(partial)]
    if not ctx.fork(ok):
        ctx.outcome('no file name')
        ctx.check(len(got) == 0, 'a partial name without a file name is carved')
        return
    ctx.check(len(got) >= 1, 'a file name in slack space is not carved')
    same(ctx, got[0], b'\x00\x00\x11\x11\x00\x00\x01\x01', t, 1, 0)
    part = got[1:]
    if not partial:
        ctx.check(len(part) == 0, 'a partial name is carved when it is not asked for')
        return
    ctx.check(len(part) <= 1, 'too many partial names')
    good = False
    for w in names:
        if w is None:
            good = ctx.Or(good, len(part) == 0)
        elif part and len(part[0]) == len(w):
            c = True
            for x, y in zip(part[0], w):
                c = ctx.And(c, ord(x) == y)
            good = ctx.Or(good, c)
    ctx.outcome('partial' if part else 'none')
    ctx.check(good, 'partial name')


def h_record(ctx, kids):
    """The slack spaces of a file record: those of its segments, in order."""
    segs, want = [], []
    for k in range(kids + 1):
        raw = frs_build([attr_resident(0x100, b'\x01' * 8)], k, base=0 if k == 0 else 1 << 48)
        used = u32(raw, 24)
        cont = ctx.bytes('s%d' % k, 6)
        at = 300
        raw = raw[:at] + cont + raw[at + 6:]
        s = MFT.FileRecordSegment(raw, suggested_mft_number=k)
        segs.append(s)
        list(s.attributes())
        want.append((cont, at - used + 4))
    got = [x for x in MFT.FileRecord(segs[0], segs[1:]).slack()]
    ctx.outcome('slack')
    ctx.check(len(got) == kids + 1, 'number of slack spaces')
    n = [len(g.value) for g in got]
    for g, (cont, at) in zip(got, want):
        ctx.check(len(g.value) in (1024 - 300 + at, 1024 - 300 + at - 4), 'length of the slack space of a segment')
        o = len(g.value) - (1024 - 300)
        ctx.check(g.value[o:o + 6] == cont, 'slack space of a segment')


CASES = []
for chars in (0, 1, 2):
    for which in (range(4) if chars == 1 else (chars,)):
        CASES.append({'name': 'one_%d_%d' % (chars, which), 'fn': h_one, 'cfg': {'chars': chars, 'which': which}, 'expect': ['nothing'] if chars == 0 else ['nothing', 'carved'],
                      'bounds': 'one file name with %d symbolic characters present and any recorded length, 10 positions (odd and even, cut or whole), timestamp %d any 64-bit value' % (chars, which)})
for gap, chars, which in ((0, 1, 0), (0, 1, 3), (2, 1, 1), (6, 2, 2)):
    CASES.append({'name': 'two_%d_%d_%d' % (gap, chars, which), 'fn': h_two, 'cfg': {'gap': gap, 'chars': chars, 'which': which}, 'expect': ['0', '1', '2'],
                  'bounds': 'two file names %d bytes apart, a timestamp of each any 64-bit value' % gap})
CASES.append({'name': 'two_over', 'fn': h_two, 'cfg': {'gap': 0, 'chars': 1, 'which': 1, 'over': 4}, 'expect': ['0', '1', '2'], 'bounds': 'two file names, the recorded name of the first reaches into the second'})
CASES.append({'name': 'several', 'fn': h_several, 'cfg': {}, 'expect': ['0', '1', '2', '3'], 'bounds': 'a list of three slack spaces'})
CASES.append({'name': 'short', 'fn': h_short, 'cfg': {}, 'expect': ['empty'], 'bounds': '11 lengths up to 65 bytes'})
for nm, units, free, odd in (('all5', 5, (0, 2, 4), 0), ('mid', 9, (1, 4, 8), 0), ('odd', 7, (0, 5, 6), 1), ('tail', 12, (5, 6, 11), 0), ('few', 4, (0, 3), 0), ('six', 6, (0, 1, 2), 0)):
    CASES.append({'name': 'partial_' + nm, 'fn': h_partial, 'cfg': {'units': units, 'free': free, 'odd': odd, 'which': 2 if nm == 'few' else None}, 'expect': ['none'] if nm in ('few', 'all5') else ['none', 'partial'],
                  'bounds': '%d characters before the first file name, those at %s arbitrary' % (units, list(free))})
for kids in (0, 2):
    CASES.append({'name': 'record_%d' % kids, 'fn': h_record, 'cfg': {'kids': kids}, 'expect': ['slack'], 'bounds': 'a file record of %d segments' % (kids + 1)})
