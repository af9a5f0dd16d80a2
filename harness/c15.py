"""C15: scanning a change journal."""
from dfir_ntfs import USN
from harness.util import *

FILES = ['dfir_ntfs/USN.py']
ASSUMPTIONS = ['Records are at most 8192 bytes long.']
MIN = {2: 62, 3: 78, 4: 80}


def valid(ctx, raw, pos, size):
    if pos + 8 > size:
        return False
    ln, maj = a32(ctx, raw, pos), a16(ctx, raw, pos + 4)
    return ctx.And(ln % 8 == 0, ln <= min(size - pos, 8192), ctx.Or(*[ctx.And(maj == v, ln >= m) for v, m in MIN.items()]))


def h_scan(ctx, size, free):
    """Every content; records may start at the positions in free only."""
    raw = ctx.bytes('v', size, array=True)
    for p in range(0, size, 8):
        if p not in free:
            ctx.assume(ctx.And(a16(ctx, raw, p + 4) == 9, a32(ctx, raw, p) >= 8))
    it = iter(USN.ChangeJournalParser(ctx.file(raw)).usn_records())
    pos = 0
    n = 0
    while pos < size:
        if not ctx.fork(valid(ctx, raw, pos, size)):
            pos += 8
            continue
        r = next(it, None)
        ctx.check(r is not None, 'a record is not reported')
        if r is None:
            return
        ctx.check(ctx.And(r.get_record_length() == a32(ctx, raw, pos), r.get_major_version() == a16(ctx, raw, pos + 4)), 'record')
        ctx.check(r.get_usn() == ctx.If(r.get_major_version() == 2, a64(ctx, raw, pos + 24), a64(ctx, raw, pos + 40)), 'record')
        n += 1
        pos += ctx.concrete(a32(ctx, raw, pos))
    ctx.outcome('%d records' % n)
    ctx.check(next(it, None) is None, 'a record is invented')


def h_layout(ctx, gaps, lens, ver, junk, tail, moved=False):
    """Records separated by zeros (as in a sparse journal) or junk."""
    data = b''
    want = []
    for k, ln in enumerate(lens):
        g = ctx.choice('gap', gaps)
        if junk and g:
            data = data + b'\x00' * (g - 8) + ctx.bytes('junk', 4) + p16(9) + p16(0)
        else:
            data = data + b'\x00' * g
        usn = ctx.int('usn', 0, (1 << 63) - 1)
        v = ctx.choice('ver', ver)
        head = p32(ln) + p16(v) + p16(0)
        o = 24 if v == 2 else 40
        data = data + head + b'\x00' * (o - 8) + p64(usn) + b'\x00' * (ln - o - 8)
        want.append((usn, v, ln))
    data = data + b'\x00' * tail
    f = ctx.file(data)
    p = USN.ChangeJournalParser(f)
    got = []
    for r in p.usn_records():
        got.append(r)
        if moved:   # the caller uses the file for something else between two records
            f.seek(ctx.choice('seek', [0, 8, 8192]))
            f.read(1)
    ctx.outcome('%d records' % len(got))
    ctx.check(len(got) == len(want), 'number of records')
    if moved:
        ctx.check(len(list(p.usn_records())) == len(want), 'number of records in a second scan')
    for r, (usn, v, ln) in zip(got, want):
        ctx.check(ctx.And(r.get_usn() == usn, r.get_major_version() == v, r.get_record_length() == ln), 'record')


def h_cut(ctx, ver, ln):
    """The last record is cut at any point."""
    usn = ctx.int('usn', 0, (1 << 63) - 1)
    o = 24 if ver == 2 else 40
    rec = p32(ln) + p16(ver) + p16(0) + b'\x00' * (o - 8) + p64(usn) + b'\x00' * (ln - o - 8)
    cut = ctx.int('cut', 0, ln)
    data = (rec + rec)[:ln + cut]
    got = list(USN.ChangeJournalParser(ctx.file(data)).usn_records())
    n = 2 if ctx.fork(cut == ln) else 1
    ctx.outcome('%d records' % n)
    ctx.check(len(got) == n, 'number of records')
    for r in got:
        ctx.check(r.get_usn() == usn, 'record')


G = [0, 8, 4096, 8120, 8128, 8136, 8184, 8192, 8200]
CASES = [
    {'name': 'scan_88', 'fn': h_scan, 'cfg': {'size': 88, 'free': [0, 8]}, 'bounds': 'every 88-byte journal with at most two record headers, at 0 and 8', 'expect': ['0 records', '1 records']},
    {'name': 'scan_101', 'fn': h_scan, 'cfg': {'size': 101, 'free': [0, 16]}, 'bounds': 'every 101-byte journal with at most two record headers, at 0 and 16', 'expect': ['0 records', '1 records']},
    {'name': 'scan_144', 'fn': h_scan, 'cfg': {'size': 144, 'free': [0, 72]}, 'bounds': 'every 144-byte journal with at most two record headers, at 0 and 72', 'expect': ['0 records', '1 records', '2 records']},
    {'name': 'sparse', 'fn': h_layout, 'cfg': {'gaps': G, 'lens': [64, 80], 'ver': [2], 'junk': 0, 'tail': 0}, 'bounds': 'two records, gaps of zeros around the 8192-byte window', 'expect': ['2 records']},
    {'name': 'sparse_tail', 'fn': h_layout, 'cfg': {'gaps': [0, 8128, 16384], 'lens': [88, 96], 'ver': [2, 3, 4], 'junk': 0, 'tail': 8195}, 'bounds': 'two records of any version, gaps of zeros, zeros at the end', 'expect': ['2 records']},
    {'name': 'junk', 'fn': h_layout, 'cfg': {'gaps': [0, 72, 8192], 'lens': [64, 64], 'ver': [2], 'junk': 1, 'tail': 4}, 'bounds': 'two records, unparsable data between them', 'expect': ['2 records']},
    {'name': 'large', 'fn': h_layout, 'cfg': {'gaps': [0, 8000], 'lens': [4096, 8192, 600], 'ver': [3], 'junk': 0, 'tail': 0}, 'bounds': 'three records of up to 8192 bytes', 'expect': ['3 records']},
    {'name': 'moved', 'fn': h_layout, 'cfg': {'gaps': [0, 72, 8192], 'lens': [64, 88], 'ver': [2], 'junk': 0, 'tail': 8, 'moved': True}, 'bounds': 'two records, the position in the file changed by the caller after each, two scans', 'expect': ['2 records']},
    {'name': 'cut_2', 'fn': h_cut, 'cfg': {'ver': 2, 'ln': 72}, 'bounds': 'a record cut at any point', 'expect': ['1 records', '2 records']},
    {'name': 'cut_4', 'fn': h_cut, 'cfg': {'ver': 4, 'ln': 80}, 'bounds': 'a record cut at any point', 'expect': ['1 records', '2 records']},
]
