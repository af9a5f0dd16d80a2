"""C18: recovery of log pages from the tail copies (1.1) and the fast pages (2.x)."""
from dfir_ntfs import LogFile
from harness.util import *
from harness.logutil import *

FILES = ['dfir_ntfs/LogFile.py']
ASSUMPTIONS = ['Log pages start their data at offset 64, as on every supported version.', 'Log files have up to 3 pages in the circular area.']
BITS = 44


def unchanged(ctx, f, img, j):
    f.seek(0)
    now = f.read()
    ctx.check(len(now) == len(img), 'the size of the log file changed')
    ctx.check(ctx.byte_at(now, j) == ctx.byte_at(img, j), 'the log file was modified')


def compare(ctx, p, img, writes, j):
    """The working copy is the image with the given (offset, page) writes applied in order."""
    want = ctx.byte_at(img, j)
    far = [w for w in writes if w[0] >= len(img)]
    for off, data in writes:
        want = ctx.If(ctx.And(j >= off, j < off + PAGE), ctx.byte_at(data, ctx.If(ctx.And(j >= off, j < off + PAGE), j - off, 0)), want)
    p.file_object.seek(0)
    now = p.file_object.read()
    top = max([len(img)] + [off + PAGE for off, _ in writes])
    ctx.check(len(now) == top, 'the size of the working copy')
    ctx.check(ctx.byte_at(now, j) == want, 'content of the working copy')
    if far:
        j2 = ctx.int('j2', 0, PAGE - 1)
        for off, data in far[-1:]:
            ctx.check(ctx.byte_at(now, off + j2) == ctx.byte_at(data, j2), 'content of the working copy past the end of the truncated file')


def h_tail(ctx, offsets, offsets2, size=0):
    """Log version 1.1: two tail copies, each intact or damaged."""
    off = [ctx.choice('target', offsets), ctx.choice('target', offsets2)]
    end = [ctx.int('end', 0, (1 << 64) - 1), ctx.int('end', 0, (1 << 64) - 1)]
    bad = [ctx.bool('bad'), ctx.bool('bad')]
    tails = []
    for k in range(2):
        t = log_page([(64, ctx.bytes('tail%d' % k, 8))], off[k] % (1 << 64), end[k], usn=0x0404 + k)
        if ctx.fork(bad[k]):
            t = b'XXXX' + t[4:]
        tails.append(t)
    area = restart_area(BITS, [client_record(0, 0)], size=size)
    img = image((1, 1), area, [tails[0], tails[1]] + [log_page([(64, ctx.bytes('old', 8))], 1, 1) for _ in range(2)], 2)
    f = ctx.file(img)
    j = ctx.int('j', 0, len(img) - 1)
    p = LogFile.LogFileParser(f)
    p.prepare_for_writes()
    p.apply_tail_page()
    good = [k for k in range(2) if not bad[k]]
    writes = []
    if len(good) == 2:
        k = 0 if ctx.fork(end[0] > end[1]) else 1
        ctx.assume(end[0] != end[1])     # either copy may be used when both are equally recent
        good = [k]
    for k in good:
        if 0 <= off[k] and off[k] + PAGE <= max(len(img), size):
            writes.append((off[k], tails[k]))
    ctx.outcome('applied' if writes else 'nothing')
    compare(ctx, p, img, writes, j)
    unchanged(ctx, f, img, j)
    p.discard_changes()
    compare(ctx, p, img, [], j)


def h_fast(ctx, slots, targets, ver, size=0):
    """Log version 2.x: fast pages that are newer than the circular area are applied, the most recent last."""
    fast = {}
    for s in slots:
        lsn = ctx.int('lsn', 0, (1 << 64) - 1)
        bad = ctx.bool('bad')
        t = ctx.choice('target', targets)
        pg = log_page([(64, ctx.bytes('fast%d' % s, 8))], lsn, 0, off2=t, usn=0x0500 + s)
        if ctx.fork(bad):
            pg = b'XXXX' + pg[4:]
        else:
            fast[s] = (lsn, t, pg)
        fast.setdefault(s, (None, t, pg))
    old = [ctx.int('old', 0, (1 << 64) - 1) for _ in range(2)]
    pages = []
    for n in range(2, 34):
        pages.append(fast[n][2] if n in fast else b'\xff' * PAGE)
    for k in range(2):
        pages.append(log_page([(64, ctx.bytes('old%d' % k, 8))], old[k], 0))
    area = restart_area(BITS, [client_record(0, 0)], size=size)
    img = image(ver, area, pages, 2)
    f = ctx.file(img)
    # positions that matter: the circular area
    j = ctx.int('j', 34 * PAGE, len(img) - 1)
    p = LogFile.LogFileParser(f)
    p.prepare_for_writes()
    p.apply_fast_pages()
    hi = old[0] if ctx.fork(old[0] > old[1]) else old[1]
    sel = [v for v in fast.values() if v[0] is not None and ctx.fork(v[0] > hi)]
    for a in sel:
        for b in sel:
            if a is not b:
                ctx.assume(a[0] != b[0])
    # insertion sort by LSN
    order = []
    for v in sel:
        k = 0
        while k < len(order) and ctx.fork(order[k][0] < v[0]):
            k += 1
        order.insert(k, v)
    writes = [(t, pg) for _, t, pg in order if t + PAGE <= max(len(img), size)]
    ctx.outcome('%d applied' % len(writes))
    compare(ctx, p, img, writes, j)
    unchanged(ctx, f, img, j)
    p.discard_changes()
    compare(ctx, p, img, [], j)


def h_usa(ctx):
    """A fast page whose update sequence array covers the place of the target offset has no target and is ignored."""
    uo = ctx.choice('uo', [40, 42, 44, 48])
    area = restart_area(BITS, [client_record(0, 0)], data=72)
    body = b'RCRD' + p16(uo) + p16(9) + p64(99) + b'\0' * 44 + p32(34 * PAGE) + b'\0' * (PAGE - 64)
    fast = protect(body, 0x0606, uo)
    old = log_page([], 1, 1)
    img = image((2, 0), area, [fast] + [b'\xff' * PAGE] * 31 + [old], 2)
    f = ctx.file(img)
    p = LogFile.LogFileParser(f)
    p.prepare_for_writes()
    p.apply_fast_pages()
    p.file_object.seek(34 * PAGE)
    now = p.file_object.read(PAGE)
    ctx.outcome('applied' if uo + 18 <= 60 else 'ignored')
    ctx.check(now == (fast if uo + 18 <= 60 else old), 'content of the working copy')


def h_parse(ctx, ver):
    """End to end: a record that exists in the recovery page only is reported with recovery and not without it; the file is never modified."""
    first = 4 if ver == (1, 1) else 34
    seq = ctx.int('seq', 1, 1 << 19)
    l1, l2 = make_lsn(first, 64, seq, BITS), make_lsn(first, 64 + 48 + 32, seq, BITS)
    r1 = rec_header(l1, 0, 0, 32, 0, 1, 0) + b'\0' * 32
    r2 = rec_header(l2, l1, 0, 32, 0, 1, 0) + ctx.bytes('op', 2) + b'\0' * 30
    if ver == (1, 1):
        new = log_page([(64, r1 + r2)], first * PAGE, l2, usn=0x0707)
        rec = [new, log_page([], 0, 0)]
    else:
        new = log_page([(64, r1 + r2)], l2, l2, off2=first * PAGE, usn=0x0707)
        rec = [b'\xff' * PAGE] * 5 + [new] + [b'\xff' * PAGE] * 26
    old = log_page([(64, r1)], l1, l1)
    area = restart_area(BITS, [client_record(l1, 0)])
    img = image(ver, area, rec + [old], 2)
    f = ctx.file(img)
    j = ctx.int('j', 0, len(img) - 1)
    p = LogFile.LogFileParser(f)
    mode = ctx.choice('mode', [True, False])
    got = [r.lsn for r in p.parse_ntfs_records(mode)]
    ctx.outcome('recovered' if mode else 'as is')
    want = [l1, l2] if mode else [l1]
    ctx.check(len(got) == len(want), 'number of records')
    for a, b in zip(got, want):
        ctx.check(a == b, 'records')
    unchanged(ctx, f, img, j)
    compare(ctx, p, img, [], j)
    again = [r.lsn for r in p.parse_ntfs_records(True)]
    ctx.check(len(again) == 2, 'number of records')
    unchanged(ctx, f, img, j)
    p.prepare_for_writes()      # by hand, after a complete parse
    (p.apply_tail_page if ver == (1, 1) else p.apply_fast_pages)()
    compare(ctx, p, img, [(first * PAGE, new)], j)
    unchanged(ctx, f, img, j)
    p.discard_changes()
    last = [r.lsn for r in p.parse_ntfs_records(False)]
    ctx.check(len(last) == 1, 'changes are not discarded')


CASES = [
    {'name': 'tail', 'fn': h_tail, 'cfg': {'offsets': [4 * PAGE, 5 * PAGE], 'offsets2': [4 * PAGE, 5 * PAGE]}, 'bounds': 'log version 1.1, every state of the two tail pages, every last LSN, targets in the file', 'expect': ['applied', 'nothing']},
    {'name': 'tail_bad', 'fn': h_tail, 'cfg': {'offsets': [-1, 5 * PAGE + 8, 6 * PAGE, 1 << 62, 5 * PAGE], 'offsets2': [-8, 4 * PAGE]}, 'bounds': 'log version 1.1, targets in and outside the file', 'expect': ['applied', 'nothing']},
    {'name': 'tail_trunc', 'fn': h_tail, 'cfg': {'offsets': [7 * PAGE, 8 * PAGE, 5 * PAGE], 'offsets2': [6 * PAGE], 'size': 8 * PAGE}, 'bounds': 'log version 1.1, a truncated log file, targets in and outside the recorded size', 'expect': ['applied', 'nothing']},
    {'name': 'fast_trunc', 'fn': h_fast, 'cfg': {'slots': [2], 'targets': [37 * PAGE, 38 * PAGE, 36 * PAGE + 8], 'ver': (2, 0), 'size': 38 * PAGE}, 'bounds': 'log version 2.0, a truncated log file, targets in and outside the recorded size', 'expect': ['0 applied', '1 applied']},
    {'name': 'fast_2', 'fn': h_fast, 'cfg': {'slots': [2, 33], 'targets': [34 * PAGE, 35 * PAGE], 'ver': (2, 0)}, 'bounds': 'log version 2.0, two fast pages at the first and the last slot, every LSN', 'expect': ['0 applied', '1 applied', '2 applied']},
    {'name': 'fast_bad', 'fn': h_fast, 'cfg': {'slots': [3], 'targets': [36 * PAGE, 35 * PAGE + 8, 0xFFFFF000, 35 * PAGE], 'ver': (2, 0)}, 'bounds': 'log version 2.0, one fast page, targets in and outside the file', 'expect': ['0 applied', '1 applied']},
    {'name': 'fast_3', 'fn': h_fast, 'cfg': {'slots': [2, 10, 33], 'targets': [35 * PAGE], 'ver': (3, 0)}, 'bounds': 'log version 3.0, three fast pages for one page, every LSN', 'expect': ['0 applied', '1 applied', '2 applied', '3 applied']},
    {'name': 'usa', 'fn': h_usa, 'cfg': {}, 'bounds': 'position of the update sequence array in a fast page', 'expect': ['applied', 'ignored']},
    {'name': 'parse_11', 'fn': h_parse, 'cfg': {'ver': (1, 1)}, 'bounds': 'log version 1.1, every sequence number', 'expect': ['recovered', 'as is']},
    {'name': 'parse_20', 'fn': h_parse, 'cfg': {'ver': (2, 0)}, 'bounds': 'log version 2.0, every sequence number', 'expect': ['recovered', 'as is']},
]
