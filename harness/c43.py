"""C43: the NTFS command line parser: a row for every record that the library finds, with its fields in the right columns."""
from dfir_ntfs import MFT, Attributes, USN, WSL
from harness.util import *
from harness import c40, c41
from harness import shadowutil as sh

FILES = ['ntfs_parser', 'dfir_ntfs/MFT.py', 'dfir_ntfs/Attributes.py', 'dfir_ntfs/USN.py', 'dfir_ntfs/WSL.py', 'dfir_ntfs/ShadowCopy.py']
ASSUMPTIONS = ['Paths, decoded timestamps and carved file names are those of the library (decided by C08-C15, C38-C41); the script is run as a whole, with stand-ins for its arguments, its files and the csv writer (the cells it is given are compared).',
               'Tables of 8 file records; the fields of one of them are arbitrary.']
T = [0x01D5000000000001, 0x01D6000000000003, 0x01D7000000000005, 0x01D8000000000007]
HEAD_MFT = ['Source', 'MFT reference number', 'Is in use', 'Is directory', 'Log file sequence number', 'Path', '$SI M timestamp', '$SI A timestamp', '$SI C timestamp', '$SI E timestamp', '$SI USN value',
            '$FN M timestamp', '$FN A timestamp', '$FN C timestamp', '$FN E timestamp', '$OBJID timestamp', 'File size', 'ADS list', 'WSL M timestamp', 'WSL A timestamp', 'WSL CH timestamp']
HEAD_USN = ['USN value', 'Source', 'Reason', 'MFT reference number', 'Parent MFT reference number', 'Timestamp', 'File name', 'File path (from $MFT)']
HEAD_INDX = ['Source', 'MFT reference number', 'Is directory', 'Path', '$FN M timestamp', '$FN A timestamp', '$FN C timestamp', '$FN E timestamp', 'File size']
HEAD_MEM = ['Possible MFT reference number', 'M timestamp', 'A timestamp', 'C timestamp', 'E timestamp', 'A timestamp (real)']
ROOT = 5 + (5 << 48)
DIRECTORY = 0x10000000


def w(s):
    return s.encode('utf-16le')


def stamp(t):
    return 'N/A' if t is None else t.strftime('%Y-%m-%d %H:%M:%S.%f')


def ft(x):
    return stamp(Attributes.DecodeFiletime(u64(p64(x), 0)))


def order(t):
    """On disk: C M E A; in the reports: M A C E."""
    return [ft(t[1]), ft(t[3]), ft(t[0]), ft(t[2])]


def si(t=T, usn=None):
    v = p64(t[0]) + p64(t[1]) + p64(t[2]) + p64(t[3]) + b'\0' * 16
    return attr_resident(0x10, v if usn is None else v + b'\0' * 16 + p64(usn))


def fn(parent, name, t=T, sizes=(0x1000, 0x123), fattr=0x20, ns=1):
    return file_name_value(parent, w(name), ns, t, sizes, fattr)


class Row:
    """What a file record shows apart from its path."""

    def __init__(self, number, seq=1, flags=1, lsn=0, si=None, usn=None, objid='', size='?', ads='', wsl=('', '', ''), index=(), slack=(), names=()):
        self.__dict__.update(locals())


def record(r, attrs, slack=b''):
    raw = frs_build(attrs, r.number, seq=r.seq, flags=r.flags, lsn=r.lsn)
    if slack:
        # The record shrinks: what follows its end is left over. Not over the last bytes of a sector.
        used = 56 + len(b''.join(attrs)) + 8
        assert used + len(slack) <= 510
        raw = raw[:used] + slack + raw[used + len(slack):]
    return raw


def mft(rows):
    """rows: {number: (Row, bytes)} in addition to the records every table has. Returns (bytes, {number: Row})."""
    std = {0: (Row(0, 1, 1), [attr_resident(0x100, b'x' * 8)]), 3: (Row(3, 3, 1), [attr_resident(0x70, VOLUME_INFO)]), 5: (Row(5, 5, 3), [attr_resident(0x30, fn(ROOT, '.', fattr=DIRECTORY))])}
    out, info = b'', {}
    for i in range(8):
        if i in rows:
            info[i], raw = rows[i]
        elif i in std:
            info[i], attrs = std[i]
            raw = record(info[i], attrs)
        else:
            raw = b'\0' * 1024
        out = out + raw
    return out, info


def parent_path(m, reference):
    """Path of a directory by a reference to it, or None."""
    number, seq = MFT.DecodeFileRecordSegmentReference(reference)
    try:
        paths = m.build_full_paths(m.get_file_record_by_number(number, seq))
    except MFT.MasterFileTableException:
        return None
    return paths[0] if len(paths) > 0 else None


def under(directory, name):
    if directory is None:
        return '<Unknown>/' + name
    return ('' if directory == '/.' else directory) + '/' + name


def yes(ctx, b):
    return 'Y' if ctx.fork(b) else 'N'


def rows_mft(ctx, data, info, tag=None):
    m = MFT.MasterFileTableParser(ctx.file(data))
    mark = (lambda s: s) if tag is None else (lambda s: s + ' (' + tag + ')')
    out = []
    for f in m.file_records():
        r = info[f.get_master_file_table_number()]
        paths = m.build_full_paths(f, True)
        ref = u64(p32(r.number) + b'\0\0' + p16(r.seq), 0)
        head = [mark('File record'), ref, yes(ctx, r.flags % 2 == 1), yes(ctx, (r.flags // 2) % 2 == 1), r.lsn]
        s = ['', '', '', '', ''] if r.si is None else order(r.si) + [r.usn]
        tail = [r.objid, r.size, r.ads] + list(r.wsl)
        for path, a in paths:
            out.append(head + [path] + s + [stamp(a.get_mtime()), stamp(a.get_atime()), stamp(a.get_ctime()), stamp(a.get_etime())] + tail)
        if not paths:
            out.append(head + [''] + s + [''] * 4 + tail)
        if ctx.fork((r.flags // 2) % 2 == 1):
            for ref, name, t, size, fattr in r.index:
                out.append([mark('Index record'), ref, '?', yes(ctx, (fattr // DIRECTORY) % 2 == 1), '', under(paths[0][0] if paths else None, name)] + [''] * 5 + order(t) + ['', size, '', '', '', ''])
        for parent, name, t, size, fattr in r.slack:
            if parent is None:
                out.append([mark('Slack'), '?', '?', '?', '', '<Unknown, likely the same as above>/<Can be partially overwritten or start with a wrong character>' + name] + [''] * 5 + ['?'] * 4 + ['', '?', '', '', '', ''])
            else:
                out.append([mark('Slack'), '?', '?', yes(ctx, (fattr // DIRECTORY) % 2 == 1), '', under(parent_path(m, parent), name)] + [''] * 5 + order(t) + ['', size, '', '', '', ''])
    return out


def modes(ctx):
    ctx.pin()
    ctx.text()


def report(ctx, argv, files, head, want):
    outs, code = ctx.script('ntfs_parser', argv, {n: ctx.file(d) for n, d in files.items()})
    ctx.check('out' in outs, 'there is no output file')
    ctx.check(outs['out'].closed, 'the output file is not closed')
    same_rows(ctx, outs['out'].rows, [head] + want)


def run_mft(ctx, rows):
    data, info = mft(rows)
    want = rows_mft(ctx, data, info)
    ctx.outcome('%d rows' % len(want))
    report(ctx, ['--mft', 'in', 'out'], {'in': data}, HEAD_MFT, want)


def moment(ctx, name):
    return u64(ctx.bytes(name, 8), 0)


def h_head(ctx):
    modes(ctx)
    r = Row(6, ctx.int('seq', 0, 0xFFFF), ctx.int('flags', 0, 15), u64(ctx.bytes('lsn', 8), 0), usn=None)
    named = ctx.choice('named', [0, 1, 2])
    run_mft(ctx, {6: (r, record(r, [attr_resident(0x30, fn(ROOT, 'name%d' % k)) for k in range(named)]))})


def h_si(ctx, which):
    modes(ctx)
    t = list(T)
    t[which] = moment(ctx, 'time')
    usn = ctx.int('usn', 0, (1 << 64) - 1) if ctx.choice('long', [True, False]) else None
    r = Row(6, si=t, usn=usn)
    attrs = [si(t, usn)]
    if ctx.choice('again', [False, True]):
        attrs.append(si([x + 7 for x in T], 99))
    if ctx.choice('named', [True, False]):
        attrs.append(attr_resident(0x30, fn(ROOT, 'file')))
    run_mft(ctx, {6: (r, record(r, attrs))})


def h_fn(ctx, which):
    modes(ctx)
    t, u = list(T), [x + (1 << 40) for x in T]
    t[which] = moment(ctx, 'time')
    u[(which + 1) % 4] = ctx.int('other', 0, 0xFFFF) + 0x01D6123456780000
    r = Row(6, si=[x + 7 for x in T], usn=3)
    a = [attr_resident(0x30, fn(ROOT, 'a', t, ns=ctx.choice('ns', [0, 1, 2, 3]))), attr_resident(0x30, fn(7 + (2 << 48), 'b', u))]
    run_mft(ctx, {6: (r, record(r, [si(r.si, 3)] + a))})


def h_data(ctx):
    modes(ctx)
    size, low = ctx.int('size', 0, 1 << 62), ctx.choice('low', [0, 1])
    n = ctx.choice('n', [0, 5])
    parts = {'resident': attr_resident(0x80, b'x' * n), 'nonresident': attr_nonresident(0x80, low, low + 3, b'\x11\x04\x20\0', 1 << 62, size, size),
             'stream': attr_resident(0x80, b'y' * 7, w('z')), 'big stream': attr_nonresident(0x80, low, low + 3, b'\x11\x04\x20\0', 0x4000, 0x3456, 0x3456, w('ab')),
             'other': attr_nonresident(0x90, 0, 3, b'\x11\x04\x20\0', 0x4000, 0x77, 0x77), 'again': attr_resident(0x80, b'y' * 9)}
    what = ctx.choice('what', [(), ('resident',), ('nonresident',), ('stream', 'resident'), ('big stream', 'stream', 'nonresident'), ('nonresident', 'again'), ('resident', 'nonresident'),
                               ('stream', 'stream', 'other'), ('big stream',), ('again', 'big stream', 'resident')])
    shown = '?'
    for p in what:
        if shown == '?':
            shown = {'resident': n, 'again': 9}.get(p, shown)
            if p == 'nonresident' and low == 0:
                shown = size
    ads = ' '.join(sorted({'z' if p == 'stream' else 'ab' for p in what if p.endswith('stream')}))
    r = Row(6, size=shown, ads=ads)
    run_mft(ctx, {6: (r, record(r, [attr_resident(0x30, fn(ROOT, 'file'))] + [parts[p] for p in what]))})


def ea(name, value, last):
    raw = bytes([0, len(name)]) + p16(len(value)) + name + b'\0' + value
    pad = -(len(raw) + 4) % 4
    return p32(0 if last else 4 + len(raw) + pad) + raw + b'\0' * pad


def h_wsl(ctx, which):
    modes(ctx)
    sec, ns = [1500000000, 1600000000, 1700000000], [0, 0, 0]
    sec[which] = ctx.int('sec', 0, 1 << 40)
    good = ctx.choice('version', [1, 2])
    v = p16(0) + p16(good) + b'\0' * 16 + b''.join(p32(x) for x in ns) + b''.join(p64(x) for x in sec)
    other = b'\0\0\1\0' + b'\0' * 28 + b'\x11' * 24
    x = lambda a: stamp(WSL.DecodeUnixtime(u64(p64(a), 0), 0))
    wsl = (x(sec[1]), x(sec[0]), x(sec[2])) if good == 1 else ('', '', '')
    where = ctx.choice('where', ['alone', 'behind', 'before', 'none'])
    if where == 'none':
        value, wsl = ea(b'LXATTRX', v, True), ('', '', '')
    elif where == 'alone':
        value = ea(b'LXATTRB', v, True)
    elif where == 'behind':
        value = ea(b'LXXATTR', other, False) + ea(b'LXATTRB', v, True)
    else:
        value = ea(b'LXATTRB', v, False) + ea(b'LXXATTR', b'123', True)
    r = Row(6, wsl=wsl)
    run_mft(ctx, {6: (r, record(r, [attr_resident(0x30, fn(ROOT, 'file')), attr_resident(0xE0, value)]))})


def h_objid(ctx):
    modes(ctx)
    low, top = ctx.int('low', 0, 0xFFFFFFFF), ctx.int('top', 0, 0xFFF)
    ver = ctx.choice('version', [1, 4])
    guid = p32(low) + p16(0x1234) + p16(top + (ver << 12)) + b'\x80\x01\x02\x03\x04\x05\x06\x07'
    n = ctx.choice('n', [16, 64, 8])
    raw = (guid + b'\x33' * 48)[:n]
    t = Attributes.ObjectID(raw).get_timestamp()
    ctx.outcome('none' if t is None else 'time')
    r = Row(6, objid='' if t is None else stamp(t))
    run_mft(ctx, {6: (r, record(r, [attr_resident(0x30, fn(ROOT, 'file')), attr_resident(0x40, raw)]))})


def index_entry(ref, key, end=False):
    n = 16 + len(key)
    pad = -n % 8
    return p64(ref) + p16(n + pad) + p16(len(key)) + p16(2 if end else 0) + b'\0\0' + key + b'\0' * pad


def index_root(entries, tc=0x30):
    e = b''.join(entries) + index_entry(0, b'', True)
    return attr_resident(0x90, p32(tc) + p32(1) + p32(4096) + p32(1) + p32(16) + p32(16 + len(e)) + p32(16 + len(e)) + p32(0) + e, w('$I30'))


def h_index(ctx, which, how):
    modes(ctx)
    t = list(T)
    if which < 4:
        t[which] = moment(ctx, 'time')
    flags = ctx.int('flags', 0, 3) if how == 'flags' else 3
    ref, size, fattr = ctx.int('ref', 0, (1 << 64) - 1), ctx.int('size', 0, (1 << 63) - 1), u32(ctx.bytes('attr', 4), 0)
    u = [x + (1 << 40) for x in T]
    index = [(ref, 'one', t, size, fattr), (77, 'two', u, 5, 0x20)]
    entries = [index_entry(ref, fn(6 + (1 << 48), 'one', t, (0, size), fattr)), index_entry(77, fn(6 + (1 << 48), 'two', u, (9, 5)))]
    if how == 'short':
        entries = [index_entry(1, b'\x11' * ctx.choice('n', [8, 64, 66]))] + entries
    tc = 0x30
    if how == 'type':
        tc = ctx.choice('type', [0x30, 0x10, 0])
        if tc != 0x30:
            index = []
    number = 5 if how == 'root' else 6
    r = Row(number, 5 if how == 'root' else 1, flags, index=index)
    named = ctx.choice('named', [True, False]) if how == 'named' else True
    name = [attr_resident(0x30, fn(ROOT, '.' if how == 'root' else 'dir', fattr=DIRECTORY))] if named else []
    second = [index_root([index_entry(3, fn(6 + (1 << 48), 'no', T))])] if how == 'again' else []
    run_mft(ctx, {number: (r, record(r, name + [index_root(entries, tc)] + second))})


def h_slack(ctx, which, how):
    modes(ctx)
    t = list(c41.T[:4])
    size, fattr = ctx.int('size', 0, 0xFF), ctx.choice('attr', [0x20, DIRECTORY])
    parent = 5 + (5 << 48)
    slack, raw = [], b''
    if how == 'parent':
        parent = ctx.choice('number', [5, 6, 7, 3, 9]) + (ctx.int('seq', 0, 0xFFFF) << 48)
    if which < 4:
        t[which] = ctx.int('low', 0, 0xFFFF) + 0x01D6123456780000
    if how == 'partial':
        raw = b'\x09\x01' + w('leftover') + b'\0' * 14
    n = ctx.choice('n', [1, 2]) if how == 'two' else 1
    for k in range(n):
        raw = raw + fn(parent, 'item%d' % k, t, (16, size), fattr) + b'\x01\xff' * 6
        slack.append((parent, 'item%d' % k, t, size, fattr))
    if how == 'partial':
        got = list(MFT.SlackSpace(raw).carve(True))
        ctx.check(len(got) == 2 and type(got[1]) is str or type(got[0]) is str, 'the partial name')
        slack = [(None, g, None, None, None) if type(g) is str else slack[0] for g in got]
    r = Row(6, 2, 3, slack=slack)
    q = Row(7, 3, 1)
    ctx.outcome('slack')
    run_mft(ctx, {6: (r, record(r, [attr_resident(0x30, fn(ROOT, 'dir', fattr=DIRECTORY))], raw)), 7: (q, record(q, [attr_resident(0x30, fn(6 + (2 << 48), 'file'))]))})


def h_usn(ctx, ver, what):
    modes(ctx)
    q = Row(6, 2, 3)
    r = Row(7, 3, 1)
    data, info = mft({6: (q, record(q, [attr_resident(0x30, fn(ROOT, 'dir', fattr=DIRECTORY))])), 7: (r, record(r, [attr_resident(0x30, fn(6 + (2 << 48), 'file'))] if ctx.choice('named', [True, False]) else []))})
    ref = ctx.choice('number', [5, 6, 7, 1, 9]) + (ctx.int('seq', 0, 0xFFFF) << 48) if what == 'path' else 7 + (3 << 48)
    ref = u64(p64(ref), 0)
    parent = u64(ctx.bytes('parent', 8), 0) if what == 'fields' else 6 + (2 << 48)
    usn = ctx.int('usn', 0, (1 << 63) - 1) if what == 'fields' else 5
    time = moment(ctx, 'time') if what == 'time' else T[0]
    reason, source = (ctx.choice('reason', [0, 1, 0x80000102, 0x400000]), ctx.choice('source', [0, 1, 6, 0x100])) if what == 'codes' else (2, 0)
    name = w('file')
    ids = p64(ref) + p64(parent) if ver == 2 else p64(ref) + b'\0' * 8 + p64(parent) + b'\0' * 8
    if ver == 4:
        body = ids + p64(usn) + p32(reason) + p32(source) + p32(0) + p16(1) + p16(16) + p64(0) + p64(100)
    else:
        o = (60 if ver == 2 else 76)
        body = ids + p64(usn) + p64(time) + p32(reason) + p32(source) + p32(0) + p32(0x20) + p16(len(name)) + p16(o) + name
    pad = -(len(body) + 8) % 8
    rec = p32(len(body) + 8 + pad) + p16(ver) + p16(0) + body + b'\0' * pad
    last = 6 + (2 << 48)
    tail = p32(72) + p16(2) + p16(0) + p64(last) + p64(ROOT) + p64(900) + p64(T[1]) + p32(1) + p32(0) + p32(0) + p32(0x20) + p16(4) + p16(60) + w('zz') + b'\0' * 8
    m = MFT.MasterFileTableParser(ctx.file(data))
    show = lambda x: parent_path(m, x) or ''
    src, rsn = USN.ResolveSourceCodes(source), USN.ResolveReasonCodes(reason)
    want = [[usn, src, rsn, ref, parent, '' if ver == 4 else ft(time), '' if ver == 4 else 'file', show(ref)], [900, USN.ResolveSourceCodes(0), USN.ResolveReasonCodes(1), last, ROOT, ft(T[1]), 'zz', '/dir']]
    ctx.outcome('path' if want[0][-1] else 'no path')
    report(ctx, ['--usn', 'mft', 'in', 'out'], {'mft': data, 'in': b'\0' * 16 + rec + b'\0' * 8 + tail}, HEAD_USN, want)


def h_usage(ctx):
    modes(ctx)
    bad = [['--mft', 'in'], ['--mft', 'in', 'out', 'more'], ['--usn', 'in', 'out'], ['--indx', 'in', 'x', 'out'], ['--all-mft', 'in', 'x', 'out'], ['--none', 'in', 'out'], ['--mem', 'in', '0', 'out'], ['--indx', 'in', 'out'], ['--log', 'in', 'out'], ['--move', 'in', 'x', 'out'], []]
    k = ctx.choice('which', list(range(len(bad))))
    outs, code = ctx.script('ntfs_parser', bad[k], {'in': ctx.file(b'\0' * 512)})
    ctx.outcome('usage')
    ctx.check(not outs, 'an output file is written without valid arguments')


def h_mem(ctx, which):
    modes(ctx)
    blocks, want = [], []
    for k in range(26):
        ref, dup, t, real_at, real = c41.usual(k, 64, 160)
        t = list(t)
        if k == 13:
            ref = ctx.int('ref', 0, 0xFF) + 0x7777777777777700
            if which < 4:
                t[which] = ctx.int('low', 0x400, 0xFFFF) + 0x01D6123456780000
            else:
                real = ctx.int('low', 0x400, 0xFFFF) + 0x01D6123456780000
        blocks.append(c41.fcb(168, ref, dup, t, real_at, real))
        d = lambda x: Attributes.DecodeFiletime(u64(p64(x), 0))
        want.append([ref, d(t[1]), d(t[3]), d(t[0]), d(t[2]), d(real)])
    out = b''
    for k in range(0, len(blocks), 16):
        page = b''.join(b + bytes([c41.FILL]) * (256 - len(b)) for b in blocks[k:k + 16])
        out = out + page + bytes([c41.FILL]) * (4096 - len(page))
    ctx.outcome('carved')
    report(ctx, ['--mem', 'in', 'out'], {'in': out}, HEAD_MEM, want)


def index_block(entries, slack):
    """An index buffer of two sectors; nothing is there at the end of the first one."""
    e = b''.join(entries) + index_entry(0, b'', True)
    usn = 7
    b = b'INDX' + p16(40) + p16(3) + b'\0' * 8 + p64(0) + p32(40) + p32(40 + len(e)) + p32(1000) + p32(0) + p16(usn) + p16(0) + p16(0)
    b = b + b'\0' * (64 - len(b)) + e + slack
    assert len(b) <= 510
    return b + b'\0' * (510 - len(b)) + p16(usn) + b'\0' * 510 + p16(usn)


def h_indx(ctx, how, which=0, voff=0):
    """A volume with clusters of 1024 bytes: the table at 4, the index of one directory at 20."""
    modes(ctx)
    t, u = list(T), list(c41.T[:4])
    size, fattr, ref = 5, 0x20, 77
    size2, fattr2 = 6, 0x20
    own = 6 + (2 << 48)
    parent = parent2 = own
    if how == 'fields':
        t[which] = moment(ctx, 'time')
        ref, size, fattr = ctx.int('ref', 0, (1 << 64) - 1), ctx.int('size', 0, (1 << 63) - 1), u32(ctx.bytes('attr', 4), 0)
    if how == 'slack':
        u[which] = ctx.int('low', 0, 0xFFFF) + 0x01D6123456780000
        size2, fattr2 = ctx.int('size', 0, 0xFF), ctx.choice('attr', [0x20, DIRECTORY])
    if how == 'parent':
        parent = ctx.choice('number', [5, 6, 7, 3, 9]) + (ctx.int('seq', 0, 0xFFFF) << 48)
    if how == 'slack parent':
        parent2 = ctx.choice('number', [5, 6, 7, 3, 9]) + (ctx.int('seq', 0, 0xFFFF) << 48)
    entries = [index_entry(ref, fn(parent, 'one', t, (0, size), fattr))]
    if how == 'short':
        entries = [index_entry(1, b'\x11' * ctx.choice('n', [8, 64, 66]))] + entries
    slack = b'\x01\xff' * 6 + fn(parent2, 'old', u, (16, size2), fattr2) + b'\x01\xff' * 6
    named = ctx.choice('named', [True, False]) if how == 'named' else True
    number = 5 if how == 'root' else 6
    alloc = lambda name, tc, at: attr_nonresident(tc, 0, 0, c40.pairs([(at, 1)]), 1024, 1024, 1024, w(name))
    q = Row(6, 2, 3)
    attrs = [attr_resident(0x30, fn(ROOT, 'dir', fattr=DIRECTORY))] if named else []
    rows = {}
    if how == 'root':
        own = ROOT
        parent = parent2 = own
        entries = [index_entry(ref, fn(parent, 'one', t, (0, size), fattr))]
        slack = b'\x01\xff' * 6 + fn(parent2, 'old', u, (16, size2), fattr2) + b'\x01\xff' * 6
        z = Row(5, 5, 3)
        rows[5] = (z, record(z, [attr_resident(0x30, fn(ROOT, '.', fattr=DIRECTORY)), alloc('$I30', 0xA0, 20)]))
    else:
        attrs = attrs + ([alloc('$I31', 0xA0, 20), alloc('$I30', 0x80, 20)] if how == 'other' else [alloc('$I30', 0xA0, 20)])
    if how == 'more':
        attrs[-1] = attr_nonresident(0xA0, 0, 1, c40.pairs([(20, 1), (21, 1)]), 2048, 2048, 2048, w('$I30'))
    rows[6] = (q, record(q, attrs))
    r = Row(7, 3, 3)
    rows[7] = (r, record(r, [attr_resident(0x30, fn(own, 'sub', fattr=DIRECTORY))] + ([alloc('$I30', 0xA0, 22)] if how == 'more' else [])))
    zero = Row(0, 1, 1)
    rows[0] = (zero, record(zero, [attr_nonresident(0x80, 0, 7, c40.pairs([(4, 8)]), 8192, 8192, 8192)]))
    data, info = mft(rows)
    slots = {0: c40.boot(512, 2, 4), 20: index_block(entries, slack)}
    second = []
    if how == 'more':
        # Another buffer, in the second extent of the index; and the index of another directory.
        second = [(5, 'two', T, 0x77), (8, 'three', [x + 9 for x in T], 0x78)]
        slots[21] = index_block([index_entry(a, fn(own, b, c, (0, d))) for a, b, c, d in second], b'')
        slots[22] = index_block([index_entry(99, fn(7 + (3 << 48), 'inner', T, (0, 4)))], b'')
    img = b'\xa5' * voff
    for c in range(24):
        d = data[(c - 4) * 1024:(c - 3) * 1024] if 4 <= c < 12 else slots.get(c, b'')
        img = img + d + b'\x5a' * (1024 - len(d))
    m = MFT.MasterFileTableParser(ctx.file(data))

    def path(p, name):
        d = '/.' if how == 'root' else ('/dir' if named else None)
        return under(d if ctx.fork(p == own) else parent_path(m, p), name)
    want = [['Index record', ref, yes(ctx, (fattr // DIRECTORY) % 2 == 1), path(parent, 'one')] + order(t) + [size],
            ['Index slack', '?', yes(ctx, (fattr2 // DIRECTORY) % 2 == 1), path(parent2, 'old')] + order(u) + [size2]]
    if how == 'other':
        want = []
    want[1:1] = [['Index record', a, 'N', '/dir/' + b] + order(c) + [d] for a, b, c, d in second]
    if how == 'more':
        want.append(['Index record', 99, 'N', '/dir/sub/inner'] + order(T) + [4])
    ctx.outcome('%d rows' % len(want))
    report(ctx, ['--indx', 'in', str(voff), 'out'], {'in': img}, HEAD_INDX, want)


def h_all(ctx, voff):
    """No shadow copies: the table of the volume alone."""
    modes(ctx)
    t = list(T)
    r = Row(6, ctx.int('seq', 1, 0xFFFF), 1, ctx.int('lsn', 0, (1 << 63) - 1), si=t, usn=4)
    zero = Row(0, 1, 1, size=8192)
    index = Row(7, 1, 3, index=[(8, 'x', T, 3, 0x20)], slack=[(ROOT, 'item', c41.T[:4], 3, 0x20)])
    data, info = mft({0: (zero, record(zero, [attr_nonresident(0x80, 0, 7, c40.pairs([(4, 8)]), 8192, 8192, 8192)])), 6: (r, record(r, [si(t, 4), attr_resident(0x30, fn(ROOT, 'file'))])),
                      7: (index, record(index, [index_root([index_entry(8, fn(7 + (1 << 48), 'x', T, (0, 3)))])], fn(ROOT, 'item', c41.T[:4], (16, 3), 0x20) + b'\x01\xff' * 6))})
    img = b'\xa5' * voff
    for c in range(24):
        d = data[(c - 4) * 1024:(c - 3) * 1024] if 4 <= c < 12 else (c40.boot(512, 2, 4) if c == 0 else b'')
        img = img + d + b'\x00' * (1024 - len(d))
    want = rows_mft(ctx, data, info, 'main volume')
    ctx.outcome('%d rows' % len(want))
    report(ctx, ['--all-mft', 'in', str(voff), 'out'], {'in': img}, HEAD_MFT, want)


def h_shadows(ctx, voff, n):
    """n shadow copies, each with a table of its own in the place of the one of the volume."""
    modes(ctx)
    tables = []
    for k in range(n + 1):
        r = Row(6, 2, 1, ctx.int('lsn%d' % k, 0, (1 << 63) - 1))
        zero = Row(0, 1, 1, size=8192)
        tables.append(mft({0: (zero, record(zero, [attr_nonresident(0x80, 0, 7, c40.pairs([(8 * 16, 8)]), 8192, 8192, 8192)])), 6: (r, record(r, [attr_resident(0x30, fn(ROOT, 'file%d' % k))]))}))
    stores = [sh.Store(k + 1, [(8 * sh.BLK, 0, (9 + k) * sh.BLK, 0, 0)], size=12 * sh.BLK) for k in range(n)]
    extra = {('v', 8): tables[0][0]}
    for k in range(n):
        extra['v', 9 + k] = tables[k + 1][0]
    img, _ = sh.build(ctx, stores, 12, 12, False, {k: sh.pad(v, sh.BLK) for k, v in extra.items()})
    img = b'\xa5' * voff + c40.boot(512, 2, 8 * 16) + img[512:]
    want = rows_mft(ctx, *tables[0], 'main volume')
    for k in range(n):
        want = want + rows_mft(ctx, *tables[1 + k], 'shadow copy %d' % (k + 1))
    ctx.outcome('%d rows' % len(want))
    report(ctx, ['--all-mft', 'in', str(voff), 'out'], {'in': img}, HEAD_MFT, want)


CASES = [{'name': 'usage', 'fn': h_usage, 'cfg': {}, 'bounds': 'eleven wrong command lines', 'expect': ['usage']},
         {'name': 'mft_head', 'fn': h_head, 'cfg': {}, 'bounds': 'every sequence number, log sequence number and flags; up to two names', 'expect': ['4 rows', '5 rows']},
         {'name': 'mft_data', 'fn': h_data, 'cfg': {}, 'bounds': 'ten combinations of resident, nonresident and named data, every size', 'expect': ['4 rows']},
         {'name': 'mft_objid', 'fn': h_objid, 'cfg': {}, 'bounds': 'object identifiers with arbitrary times, two versions, three lengths', 'expect': ['none', 'time']}]
for _k, _n in enumerate('cmea'):
    CASES.append({'name': 'mft_si_' + _n, 'fn': h_si, 'cfg': {'which': _k}, 'bounds': 'every value of one timestamp and of the USN; a second attribute', 'expect': ['4 rows']})
    CASES.append({'name': 'mft_fn_' + _n, 'fn': h_fn, 'cfg': {'which': _k}, 'bounds': 'every value of one timestamp of each of two names', 'expect': ['5 rows']})
    CASES.append({'name': 'mft_index_' + _n, 'fn': h_index, 'cfg': {'which': _k, 'how': ['type', 'again', 'short', 'root'][_k]}, 'bounds': 'every value of one timestamp, the reference, the size and the attributes of an entry of an index root', 'expect': []})
    CASES.append({'name': 'mft_slack_' + _n, 'fn': h_slack, 'cfg': {'which': _k, 'how': ['two', 'partial', 'two', 'two'][_k]}, 'bounds': 'a timestamp, the size and the attributes of a file name in the slack space', 'expect': ['slack']})
    CASES.append({'name': 'indx_' + _n, 'fn': h_indx, 'cfg': {'how': 'fields', 'which': _k, 'voff': 512 * _k}, 'bounds': 'every value of one timestamp, the reference, the size and the attributes of an index entry', 'expect': ['2 rows']})
    CASES.append({'name': 'indx_slack_' + _n, 'fn': h_indx, 'cfg': {'how': 'slack', 'which': _k}, 'bounds': 'a timestamp, the size and the attributes of a file name in the index slack', 'expect': ['2 rows']})
for _k, _n in enumerate(['a', 'm', 'ch']):
    CASES.append({'name': 'mft_wsl_' + _n, 'fn': h_wsl, 'cfg': {'which': _k}, 'bounds': 'extended attributes in four arrangements, one arbitrary time', 'expect': ['4 rows']})
for _h in ('flags', 'named'):
    CASES.append({'name': 'mft_index_' + _h, 'fn': h_index, 'cfg': {'which': 4, 'how': _h}, 'bounds': 'an index root with arbitrary references, sizes and attributes (%s of the directory)' % _h, 'expect': []})
CASES.append({'name': 'mft_slack_parent', 'fn': h_slack, 'cfg': {'which': 4, 'how': 'parent'}, 'bounds': 'references to five numbers with every sequence number', 'expect': ['slack']})
for _h in ('parent', 'slack parent', 'short', 'named', 'root', 'other', 'more'):
    CASES.append({'name': 'indx_' + _h.replace(' ', '_'), 'fn': h_indx, 'cfg': {'how': _h}, 'bounds': 'an index entry and one in the slack of the index (%s)' % _h, 'expect': [{'other': '0 rows', 'more': '5 rows'}.get(_h, '2 rows')]})
for _v in (2, 3, 4):
    for _h in ('fields', 'time', 'codes', 'path'):
        if (_v, _h) != (4, 'time'):
            CASES.append({'name': 'usn_%d_%s' % (_v, _h), 'fn': h_usn, 'cfg': {'ver': _v, 'what': _h}, 'bounds': 'a record with arbitrary fields (%s) and another one' % _h, 'expect': ['path', 'no path']})
for _k, _n in enumerate(['c', 'm', 'e', 'a', 'real']):
    CASES.append({'name': 'mem_' + _n, 'fn': h_mem, 'cfg': {'which': _k}, 'bounds': '26 blocks, one with an arbitrary timestamp and reference', 'expect': ['carved']})
for _v in (0, 512):
    CASES.append({'name': 'all_mft_%d' % _v, 'fn': h_all, 'cfg': {'voff': _v}, 'bounds': 'a volume without shadow copies', 'expect': []})
for _n in (1, 2):
    CASES.append({'name': 'all_mft_%d_copies' % _n, 'fn': h_shadows, 'cfg': {'voff': 512 * (_n - 1), 'n': _n}, 'bounds': 'a volume with shadow copies that have another table', 'expect': ['%d rows' % (4 + 4 * _n)]})
