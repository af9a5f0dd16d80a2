"""C20: the stream of NTFS log records and the open attribute table as of each record."""
from dfir_ntfs import LogFile
from harness.util import *
from harness.logutil import *

FILES = ['dfir_ntfs/LogFile.py']
ASSUMPTIONS = ['Records lie on one log page; the sequences of up to 4 records are drawn from the listed kinds.', 'Names have one character below U+D800.']
BITS = 44
T = [24, 64]      # open attribute table indexes in use


def ntfs_record(redo_op, undo_op, redo, undo, target):
    """An NTFS log record with its redo and undo data."""
    ro = 40
    uo = ro + (len(redo) + 7) // 8 * 8
    body = p16(redo_op) + p16(undo_op) + p16(ro) + p16(len(redo)) + p16(uo) + p16(len(undo)) + p16(target) + p16(0) + b'\0' * 24
    body = body + redo + b'\0' * (uo - ro - len(redo)) + undo
    return body + b'\0' * (-len(body) % 8)


def oat_entry(ver, ref):
    return (b'\xff' * 4 + b'\0' * 12 + p64(ref) + b'\0' * 16) if ver else (b'\xff' * 4 + b'\0' * 4 + p64(ref) + b'\0' * 28)


def restart_record(major, cluster):
    return p32(major) + p32(0) + b'\0' * 72 + p32(cluster) + b'\0' * 28


def name_of(ctx, what):
    c = ctx.int(what, 0x20, 0x7E)
    return p16(c), p16(c).decode('utf-16le')


def same_target(ctx, got, want, msg):
    if want is None:
        ctx.check(got is None, msg + ': a target is invented')
        return
    ctx.check(got is not None, msg + ': the target is lost')
    if got is None:
        return
    ctx.check(got[0] == want[0], msg + ': file reference')
    if want[1] is None or got[1] is None:
        ctx.check(want[1] is None and got[1] is None, msg + ': attribute name')
    else:
        ctx.check(got[1] == want[1], msg + ': attribute name')


def h_stream(ctx, versions, kinds, n, clients):
    # kinds: for every record, or (a list of lists) for each of them
    major = ctx.choice('version', versions)       # None: no restart area in the log
    ver = 1 if major is None or major >= 1 else 0
    dumps = major is None or major < 2
    cluster = 65536 if major is not None else 4096
    recs = []
    if major is not None:
        recs.append(('restart', restart_record(major, cluster), 2, 0))
    state = {c: {'oat': {}, 'pending': None, 'pair': (None, None)} for c in range(clients)}   # a table dump without its names (yet), and the last complete pair
    expect = []
    if major is not None:
        expect.append(('restart', 0, None))
    for k in range(n):
        kind = ctx.choice('kind', kinds[k] if isinstance(kinds[0], list) else kinds)
        cl = ctx.choice('client', list(range(clients))) if clients > 1 else 0
        s = state[cl]
        tgt = T[ctx.choice('index', [0, 1])] if kind in ('open', 'badopen', 'update') else 0
        if kind == 'open':
            ref = ctx.int('ref', 0, (1 << 64) - 1)
            raw, nm = name_of(ctx, 'char')
            data = ntfs_record(0x1C, 0, oat_entry(ver, ref), raw, tgt)
            s['oat'] = dict(s['oat'])
            s['oat'][tgt] = (ref, nm)
        elif kind == 'badopen':
            data = ntfs_record(0x1C, 0, b'\0' * 32, b'', tgt)
            s['oat'] = {}
        elif kind == 'update':
            data = ntfs_record(8, 8, b'12345678', b'', tgt)
        elif kind == 'dumpO':
            refs = [ctx.int('dref', 0, (1 << 64) - 1) for _ in T]
            buf = b'\0' * 24 + oat_entry(ver, refs[0])
            buf = buf + b'\0' * (64 - len(buf)) if len(buf) <= 64 else buf[:64]
            buf = buf + oat_entry(ver, refs[1])
            data = ntfs_record(0x1D, 0, buf, b'', 0)
            if dumps:
                s['pending'] = refs
        elif kind == 'dumpA':
            raw, nm = name_of(ctx, 'dchar')
            data = ntfs_record(0x1E, 0, p16(T[0]) + p16(2) + raw + b'\0\0' + b'\0' * 4, b'', 0)
            if dumps and s['pending'] is not None:
                s['pair'] = (s['pending'], {T[0]: nm})
                s['pending'] = None
        elif kind == 'short':
            data = b'\x08\0' + b'\0' * 14
        elif kind == 'odd':
            data = ntfs_record(8, 8, b'', b'', 0)
        recs.append((kind, data, 3 if kind == 'odd' else 1, cl))
        if kind in ('short', 'odd'):
            continue
        pair = s['pair']
        want = None
        if kind == 'update':
            if tgt in s['oat']:
                want = s['oat'][tgt]
            elif pair[0] is not None and pair[1] is not None:
                want = (pair[0][T.index(tgt)], pair[1].get(tgt))
        expect.append((kind, cl, want))
    # lay the records out
    off, page = 64, b''
    lsns = []
    seq = 7
    items = []
    for kind, data, rtype, cl in recs:
        lsn = make_lsn(4, off, seq, BITS)
        lsns.append(lsn)
        items.append((off, rec_header(lsn, 0, 0, len(data), cl, rtype, 11) + data))
        off += 48 + len(data)
    area = restart_area(BITS, [client_record(lsns[0] if lsns else 0, 0)])
    p = LogFile.LogFileParser(ctx.file(image((1, 1), area, [log_page(items, 0, 0)], 4)))
    got = list(p.parse_ntfs_records())
    order = []
    keep = [(l, k) for l, (k, _, _, _) in zip(lsns, recs) if k not in ('short', 'odd')]
    exp = [(l, e) for (l, _), e in zip(keep, expect)]
    # grouped by client, the client of the first record first
    seen = []
    for _, _, _, cl in recs:
        if cl not in seen:
            seen.append(cl)
    for c in range(clients):
        order.append([(l, e) for l, e in exp if e[1] == c])
    ctx.outcome('%d records' % len(got))
    ctx.check(len(got) == len(exp), 'number of records')
    mine = {c: [g for g in got if any(g.lsn == l for l, e in order[c])] for c in range(clients)}
    for c in range(clients):
        ctx.check(len(mine[c]) == len(order[c]), 'records of a client')
        for g, (l, e) in zip(mine[c], order[c]):
            ctx.check(g.lsn == l, 'order of the records')
            if e[0] == 'restart':
                ctx.check(type(g) is LogFile.NTFSRestartArea, 'kind of record')
                continue
            ctx.check(type(g) is LogFile.NTFSLogRecord, 'kind of record')
            ctx.check(g.cluster_size == cluster, 'cluster size')
            ctx.check(g.transaction_id == 11, 'transaction')
            if e[0] == 'update':
                same_target(ctx, g.calculate_mft_target_reference_and_name(), e[2], 'update')


def h_cluster(ctx):
    """Only a plausible cluster size is taken from the restart area."""
    size = ctx.int('size', 0, 0xFFFFFFFF)
    r1 = restart_record(1, size)
    r2 = ntfs_record(2, 0, b'', b'', 0)
    off = 64
    l1 = make_lsn(4, 64, 3, BITS)
    l2 = make_lsn(4, 64 + 48 + len(r1), 3, BITS)
    page = log_page([(64, rec_header(l1, 0, 0, len(r1), 0, 2, 0) + r1 + rec_header(l2, 0, 0, len(r2), 0, 1, 0) + r2)], 0, 0)
    p = LogFile.LogFileParser(ctx.file(image((1, 1), restart_area(BITS, [client_record(l1, 0)]), [page], 4)))
    got = list(p.parse_ntfs_records())
    ctx.outcome('parsed')
    ctx.check(len(got) == 2, 'number of records')
    ctx.check(got[1].cluster_size == ctx.If(ctx.And(size > 0, size % 512 == 0), size, 4096), 'cluster size')


CASES = [
    {'name': 'opens', 'fn': h_stream, 'cfg': {'versions': [None, 0, 1, 2], 'kinds': ['open', 'badopen', 'update'], 'n': 3, 'clients': 1}, 'bounds': 'every sequence of 3 records that open attributes or update them, every client version', 'expect': ['3 records', '4 records']},
    {'name': 'dumps', 'fn': h_stream, 'cfg': {'versions': [0, 1, 2], 'kinds': ['dumpO', 'dumpA', 'update'], 'n': 3, 'clients': 1}, 'bounds': 'every sequence of 3 records with table dumps and updates', 'expect': ['4 records']},
    {'name': 'damaged', 'fn': h_stream, 'cfg': {'versions': [None, 1], 'kinds': ['short', 'odd', 'open', 'update'], 'n': 3, 'clients': 1}, 'bounds': 'every sequence of 3 records, some truncated or of an unknown type', 'expect': ['0 records', '1 records', '4 records']},
    {'name': 'clients', 'fn': h_stream, 'cfg': {'versions': [1], 'kinds': ['open', 'update'], 'n': 3, 'clients': 2}, 'bounds': 'every sequence of 3 records of two clients', 'expect': ['4 records']},
    {'name': 'clients_dumps', 'fn': h_stream, 'cfg': {'versions': [1], 'kinds': ['dumpO', 'dumpA', 'update'], 'n': 3, 'clients': 2}, 'bounds': 'every sequence of 3 records with table dumps and updates, of two clients', 'expect': ['4 records']},
    {'name': 'checkpoints', 'fn': h_stream, 'cfg': {'versions': [0, 1], 'kinds': [['dumpO', 'dumpA']] * 5 + [['update']], 'n': 6, 'clients': 1}, 'bounds': 'every sequence of 5 table dumps (pairs, parts of pairs, repeated parts), then an update', 'expect': ['7 records']},
    {'name': 'dumps_4', 'fn': h_stream, 'cfg': {'versions': [0, 1], 'kinds': ['dumpO', 'dumpA', 'update', 'open'], 'n': 4, 'clients': 1}, 'bounds': 'every sequence of 4 records with table dumps and updates', 'expect': ['5 records'], 'tier': 'thorough'},
    {'name': 'cluster', 'fn': h_cluster, 'cfg': {}, 'bounds': 'every cluster size in the restart area', 'expect': ['parsed']},
]
