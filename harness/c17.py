"""C17: log records: reassembly of client data and discovery of records."""
from dfir_ntfs import LogFile
from harness.util import *
from harness.logutil import *

FILES = ['dfir_ntfs/LogFile.py']
ASSUMPTIONS = ['Log pages start their data at offset 64, as on every supported version.', 'Sequence number bits are 44 (a log file of up to 8 MB) and log files have up to 4 pages in the circular area.']
BITS = 44


def h_data(ctx, ver, npages, offs, lens, missing):
    """One record at any of the positions, with client data that may span pages and wrap; contents arbitrary."""
    first = 4 if ver == (1, 1) else 34
    page = first + ctx.choice('page', list(range(npages)))
    off = ctx.choice('off', offs)
    seq = ctx.int('seq', 0, (1 << 20) - 1)
    room = PAGE - off - 48
    ln = ctx.choice('len', lens)
    if isinstance(ln, str):   # relative to the room left in the page
        ln = room + int(ln)
    ctx.assume(ln >= 0)
    ctx.assume(ln <= room + (npages - 1) * (PAGE - 64))
    tid = ctx.int('tid', 0, 0xFFFFFFFF)
    rtype = ctx.choice('rtype', [1, 2])
    lsn = make_lsn(page, off, seq, BITS)
    raw = [ctx.bytes('content%d' % i, PAGE, array=True) for i in range(npages)]
    for r in raw:   # the saved words do not happen to spell the marker of the checksummed form (C02 has that form)
        ctx.assume(ctx.byte_at(r, 1022) != ord('C'))
    lost = ctx.choice('lost', [None] + [first + i for i in range(npages)]) if missing else None
    ctx.assume(lost != page)
    pages = []
    for i in range(npages):
        items = [(off, rec_header(lsn, 0, 0, ln, 0, rtype, tid))] if first + i == page else []
        b = log_page(items, lsn, lsn, base=raw[i])
        if first + i == lost:
            b = b'BAAX' + b[4:]
        pages.append(b)
    area = restart_area(BITS, [client_record(0, 0)])
    p = LogFile.LogFileParser(ctx.file(image(ver, area, pages, first)))
    cd = p.get_client_data(lsn)
    want = raw[page - first][off + 48:off + 48 + min(ln, room)]
    cur = page
    while len(want) < ln:
        cur = cur + 1 if cur + 1 < first + npages else first
        if cur == lost:
            break
        want = want + raw[cur - first][64:64 + min(ln - len(want), PAGE - 64)]
    ctx.outcome('one page' if ln <= room else 'several pages' if len(want) == ln else 'page missing')
    ctx.check(len(cd.buf) == len(want), 'length of the client data')
    j = ctx.int('j', 0, 3 * PAGE)
    same_bytes(ctx, cd.buf, lambda i: ctx.byte_at(want, i), len(want), j, 'client data')
    ctx.check(ctx.And(cd.lsn == lsn, cd.record_type == rtype, cd.transaction_id == tid), 'record fields')


def h_chain(ctx, ver, npages, start, lens, nrec, entry):
    """Records written one after another, also across pages and the wrap, of which only one is named elsewhere: all the following ones are found."""
    first = 4 if ver == (1, 1) else 34
    page = first + ctx.choice('page', list(range(npages)))
    off = ctx.choice('off', start)
    seq = ctx.int('seq', 1, 1000)
    items = {i: [] for i in range(npages)}
    lsns = []
    wrapped = False
    for k in range(nrec):
        if off + 48 > PAGE:     # the header does not fit: the record starts on the next page
            page, off = page + 1, 64
            if page == first + npages:
                page, seq = first, seq + 1
                wrapped = True
        ln = ctx.choice('len', lens)
        room = PAGE - off - 48
        if isinstance(ln, str):
            ln = room + int(ln)
        ctx.assume(ln >= 8)
        lsn = make_lsn(page, off, seq, BITS)
        lsns.append(lsn)
        items[page - first].append((off, rec_header(lsn, 0, 0, ln, 0, 1, 0)))
        if ln <= room:
            off = off + 48 + ln
        else:
            left = ln - room
            while True:
                page += 1
                if page == first + npages:
                    page, seq = first, seq + 1
                    wrapped = True
                if left < PAGE - 64:
                    break
                left -= PAGE - 64
            off = 64 + left
        if off >= PAGE:
            page, off = page + 1, 64
            if page == first + npages:
                page, seq = first, seq + 1
                wrapped = True
    used = sum(len(v) for v in items.values())
    pos = [(o, len(d)) for v in items.values() for o, d in v]
    for v in items.values():    # the log is not overwritten
        v.sort(key=lambda x: x[0])
        for (o1, d1), (o2, d2) in zip(v, v[1:]):
            ctx.assume(o2 >= o1 + 48)
    e = lsns[entry]
    pages = [log_page(items[i], 0, 0) for i in range(npages)]
    area = restart_area(BITS, [client_record(e, 0)])
    p = LogFile.LogFileParser(ctx.file(image(ver, area, pages, first)))
    p.collect_lsns()
    ctx.outcome('wrapped' if wrapped else 'straight')
    ctx.check(len(p.lsns) == nrec - entry, 'number of records found')
    for got, want in zip(p.lsns, lsns[entry:]):
        ctx.check(got == want, 'records found')


def h_links(ctx, shape):
    """Records reachable by the previous and undo-next numbers only; dangling numbers are ignored."""
    ctx.pin()
    seq = 5
    offs = [64, 512, 1024, 3000, 4000]
    lsns = [make_lsn(4 + k % 2, offs[k], seq, BITS) for k in range(4)]
    dp = ctx.choice('dangling', [0, 1])   # a stale number (the place was reused) or a number outside the file
    dang = make_lsn(4, offs[0], ctx.int('stale', 0, 1000), BITS) if dp else make_lsn(ctx.int('far', 6, 2000), 64, seq, BITS)
    ctx.assume(dang != lsns[0])
    items = {0: [], 1: []}
    n = len(lsns)
    link = {}
    for k in range(n):
        prev = ctx.choice('prev', [0] + lsns[:k] + ([dang] if k in (1, n - 1) else []))
        undo = ctx.choice('undo', [0] + lsns[:k][:1] + ([dang] if k == n - 1 else []))
        link[k] = (prev, undo)
        items[k % 2].append((offs[k], rec_header(lsns[k], prev, undo, 8, 0, 1, 0)))
    # nothing can be found by walking forward
    pages = [log_page(items[i], 0, 0) for i in range(2)]
    area = restart_area(BITS, [client_record(0, lsns[n - 1])])
    p = LogFile.LogFileParser(ctx.file(image((1, 1), area, pages, 4)))
    p.collect_lsns()
    reach = {n - 1}
    todo = [n - 1]
    while todo:
        k = todo.pop()
        for l in link[k]:
            for i in range(n):
                if l is lsns[i] and i not in reach:
                    reach.add(i)
                    todo.append(i)
    want = sorted(reach)
    ctx.outcome('%d records' % len(want))
    ctx.check(len(p.lsns) == len(want), 'number of records found')
    for got, k in zip(p.lsns, sorted(want, key=lambda k: lsns[k])):
        ctx.check(got == lsns[k], 'records found')


def h_areas(ctx):
    """Records that only an NTFS restart area names, and those linked with them; another restart area may be damaged."""
    ctx.pin()
    seq = 9
    order = ctx.choice('order', [0, 1])
    place = [make_lsn(4, 64, seq, BITS), make_lsn(4, 520, seq, BITS)]
    good, bad = place[order], place[1 - order]
    t = [make_lsn(5, o, seq, BITS) for o in (128, 184, 1024, 2048, 3000)]
    field = ctx.choice('field', [0, 1, 2, 3, 4])
    kind = ctx.choice('names', ['record', 'stale', 'outside'])
    named = {'record': t[0], 'stale': t[0] + ctx.int('age', 1, 9) * (1 << (64 - BITS)), 'outside': make_lsn(ctx.choice('far', [6, 2000]), 128, seq, BITS)}[kind]
    names = [named if k == field else 0 for k in range(5)]
    area = p32(1) + p32(0)
    for n in names:
        area = area + p64(n)
    area = area + b'\0' * 64
    damaged = ctx.choice('damaged', [False, True])
    first = [(64 if order == 0 else 520, rec_header(good, 0, 0, len(area), 0, 2, 0) + area)]
    if damaged:
        first.append((520 if order == 0 else 64, rec_header(bad, 0, 0, 40, 0, 2, 0) + b'\0' * 40))
    ends = [bad if damaged else 0, good]
    if damaged and ctx.choice('swap', [0, 1]):
        ends.reverse()
    # t[0] is followed by t[1], its previous record is t[2], then t[4]; its undo-next record is t[3]
    second = [(128, rec_header(t[0], t[2], t[3], 8)), (184, rec_header(t[1], 0, 0, 8)), (1024, rec_header(t[2], t[4], 0, 8)), (2048, rec_header(t[3], 0, 0, 8)), (3000, rec_header(t[4], 0, 0, 8))]
    pages = [log_page(first, 0, 0), log_page(second, 0, 0)]
    p = LogFile.LogFileParser(ctx.file(image((1, 1), restart_area(BITS, [client_record(ends[0], ends[1])]), pages, 4)))
    p.collect_lsns()
    want = sorted(([good, bad] if damaged else [good]) + (t if kind == 'record' else []))
    ctx.outcome('found' if kind == 'record' else 'ignored')
    ctx.check(len(p.lsns) == len(want), 'number of records found')
    for a, b in zip(p.lsns, want):
        ctx.check(a == b, 'records found')


CASES = [
    {'name': 'areas', 'fn': h_areas, 'cfg': {}, 'bounds': 'a record named by any field of an NTFS restart area, with links; valid, stale or outside the file; a second, damaged restart area', 'expect': ['found', 'ignored']},
    {'name': 'chain_long', 'fn': h_chain, 'cfg': {'ver': (1, 1), 'npages': 6, 'start': [64, 4000], 'lens': [40, '16200'], 'nrec': 2, 'entry': 0}, 'bounds': 'log version 1.1, 6 log pages, 2 consecutive records of up to 5 pages', 'expect': ['straight', 'wrapped']},
    {'name': 'data_11', 'fn': h_data, 'cfg': {'ver': (1, 1), 'npages': 3, 'offs': [64, 1008, 4048], 'lens': [0, 8, '-8', '0', '8', '4032', '4040', '8064'], 'missing': False}, 'bounds': 'log version 1.1, 3 log pages, record at the start, middle or end of any page, 8 lengths around the page limits, every content', 'expect': ['one page', 'several pages']},
    {'name': 'data_odd', 'fn': h_data, 'cfg': {'ver': (1, 1), 'npages': 3, 'offs': [3000], 'lens': [13, '-3', '5', '4035', '8061'], 'missing': False}, 'bounds': 'log version 1.1, 3 log pages, lengths that are not multiples of 8', 'expect': ['one page', 'several pages']},
    {'name': 'data_20', 'fn': h_data, 'cfg': {'ver': (2, 0), 'npages': 2, 'offs': [64, 2048], 'lens': [8, '0', '8', '4032'], 'missing': False}, 'bounds': 'log version 2.0, 2 log pages', 'expect': ['one page', 'several pages']},
    {'name': 'data_lost', 'fn': h_data, 'cfg': {'ver': (1, 1), 'npages': 3, 'offs': [3000], 'lens': ['0', '8', '4040'], 'missing': True}, 'bounds': 'one log page is damaged', 'expect': ['one page', 'several pages', 'page missing']},
    {'name': 'chain_11', 'fn': h_chain, 'cfg': {'ver': (1, 1), 'npages': 3, 'start': [64, 4048], 'lens': [40, '0', '8', '4000', '4040'], 'nrec': 3, 'entry': 0}, 'bounds': 'log version 1.1, 3 log pages, 3 consecutive records', 'expect': ['straight', 'wrapped']},
    {'name': 'chain_20', 'fn': h_chain, 'cfg': {'ver': (2, 0), 'npages': 2, 'start': [64, 4000], 'lens': [40, '-16', '0', '16'], 'nrec': 3, 'entry': 1}, 'bounds': 'log version 2.0, 2 log pages, 3 consecutive records, the first one unknown', 'expect': ['straight', 'wrapped']},
    {'name': 'chain_11_4', 'fn': h_chain, 'cfg': {'ver': (1, 1), 'npages': 4, 'start': [64, 2000, 4048], 'lens': [40, '0', '8', '4000', '4040'], 'nrec': 4, 'entry': 0}, 'bounds': 'log version 1.1, 4 log pages, 4 consecutive records', 'expect': ['straight', 'wrapped'], 'tier': 'thorough'},
    {'name': 'links', 'fn': h_links, 'cfg': {'shape': 0}, 'bounds': '4 records linked backwards in every way', 'expect': ['1 records', '4 records']},
]
