"""C21: opening a log file: restart pages, restart areas and client records."""
from dfir_ntfs import LogFile
from harness.util import *
from harness.logutil import *

FILES = ['dfir_ntfs/LogFile.py']
ASSUMPTIONS = ['The log file is a whole number of pages (a shorter one has its own case).']
VERS = [(1, 1), (2, 0), (3, 0)]


def h_page(ctx):
    """One restart page: which ones are accepted, and what they report."""
    sig = ctx.choice('sig', [b'RSTR', b'CHKD', b'BAAD', b'RCRD'])
    maj, mino = ctx.int('major', 0, 0xFFFF), ctx.int('minor', 0, 0xFFFF)
    sysps, logps = ctx.int('sysps', 0, 0xFFFFFFFF), ctx.int('logps', 0, 0xFFFFFFFF)
    off, chk = ctx.int('off', 0, 0xFFFF), ctx.int('chk', 0, (1 << 64) - 1)
    body = sig + p16(30) + p16(9) + p64(chk) + p32(sysps) + p32(logps) + p16(off) + p16(mino) + p16(maj)
    raw = protect(body + b'\0' * (PAGE - len(body)), 0x0202, 30)
    known = ctx.Or(*[ctx.And(maj == a, mino == b) for a, b in VERS])
    ok = ctx.And(sig != b'RCRD', known, sysps == PAGE, logps == PAGE, off > 0, off % 8 == 0, off < PAGE)
    try:
        p = LogFile.RestartPage(raw)
    except (LogFile.LogFileException, NotImplementedError):
        ctx.outcome('refused')
        ctx.check(ctx.Not(ok), 'a valid restart page is refused')
        return
    ctx.outcome('accepted')
    ctx.check(ok, 'an invalid restart page is accepted')
    ctx.check(ctx.And(p.get_major_version() == maj, p.get_minor_version() == mino, p.get_system_page_size() == sysps, p.get_log_page_size() == logps, p.get_restart_offset() == off, p.get_chkdsk_lsn() == chk), 'fields of a restart page')


def h_area(ctx, lens):
    n = ctx.choice('n', lens)
    raw = ctx.bytes('area', n)
    if n >= 24:
        cao, cnt, free, use = u16(raw, 22), u16(raw, 8), u16(raw, 10), u16(raw, 12)
        ok = ctx.And(n >= 44, cao > 0, cao % 8 == 0, cao < n, cao < PAGE, ctx.Or(free == 0xFFFF, free < cnt), ctx.Or(use == 0xFFFF, use < cnt))
    else:
        ok = False
    try:
        a = LogFile.RestartArea(raw, PAGE)
    except LogFile.LogFileException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(ok), 'a valid restart area is refused')
        return
    ctx.outcome('accepted')
    ctx.check(ok, 'an invalid restart area is accepted')
    for name, o, w in (('current_lsn', 0, 8), ('log_clients', 8, 2), ('client_free_list', 10, 2), ('client_in_use_list', 12, 2), ('flags', 14, 2), ('sequence_number_bits', 16, 4), ('restart_area_length', 20, 2),
                       ('client_array_offset', 22, 2), ('file_size', 24, -8), ('last_lsn_data_length', 32, 4), ('record_header_length', 36, 2), ('log_page_data_offset', 38, 2), ('revision_number', 40, 4)):
        want = {2: u16, 4: u32, 8: u64, -8: s64}[w](raw, o)
        ctx.check(getattr(a, 'get_' + name)() == want, name)


def h_client(ctx, lens):
    n = ctx.choice('n', lens)
    raw = ctx.bytes('client', n)
    try:
        c = LogFile.ClientRecord(raw)
    except LogFile.LogFileException:
        ctx.outcome('refused')
        ctx.check(n < 32 or u32(raw, 28) > 128, 'a valid client record is refused')
        return
    ctx.outcome('accepted')
    ctx.check(n >= 32, 'a truncated client record is accepted')
    ctx.check(u32(raw, 28) <= 128, 'a name outside the record is accepted')
    for name, o, w in (('oldest_lsn', 0, 8), ('client_restart_lsn', 8, 8), ('prev_client', 16, 2), ('next_client', 18, 2), ('sequence_number', 20, 2), ('client_name_length', 28, 4)):
        ctx.check(getattr(c, 'get_' + name)() == {2: u16, 4: u32, 8: u64}[w](raw, o), name)
    if n >= 36 and ctx.fork(u32(raw, 28) == 4):
        ctx.assume(ctx.And(raw[33] < 0xD8, raw[35] < 0xD8))
        ctx.check(c.get_client_name() == raw[32:36].decode('utf-16le'), 'name of a client')
    if n >= 40 and ctx.fork(u32(raw, 28) == 3):
        ctx.assume(raw[33] < 0xD8)
        ctx.check(c.get_client_name()[:1] == raw[32:34].decode('utf-16le'), 'name of a client with an odd length')


def h_clients(ctx):
    """Every client record of the array is reported, in order."""
    cnt = ctx.choice('count', [0, 1, 2, 3, 20])
    cao = ctx.choice('array', [48, 64])
    body = b''
    vals = []
    for k in range(cnt):
        o, r = ctx.int('oldest', 0, (1 << 64) - 1), ctx.int('restart', 0, (1 << 64) - 1)
        vals.append((o, r))
        body = body + client_record(o, r)
    raw = p64(0) + p16(cnt) + p16(0xFFFF) + p16(0 if cnt else 0xFFFF) + p16(0) + p32(44) + p16(64) + p16(cao) + b'\0' * (cao - 24) + body + b'\0' * 200
    got = list(LogFile.RestartArea(raw, PAGE).clients())
    ctx.outcome('%d clients' % cnt)
    ctx.check(len(got) == cnt, 'number of clients')
    for c, (o, r) in zip(got, vals):
        ctx.check(ctx.And(c.get_oldest_lsn() == o, c.get_client_restart_lsn() == r), 'client record')
        ctx.check(c.get_client_name() == 'NTFS', 'name of a client')


def h_open(ctx):
    """The two restart pages, each intact or damaged, of any supported version."""
    v = [ctx.choice('ver', VERS), ctx.choice('ver', VERS)]
    bits = [ctx.int('bits', 0, 80), ctx.int('bits', 0, 80)]
    hdr = [ctx.int('hdr', 0, 0xFFFF), ctx.int('hdr', 0, 0xFFFF)]
    bad = [ctx.choice('state', ['ok', 'torn', 'signature']) for _ in range(2)]
    pages = []
    for k in range(2):
        b = restart_page(v[k], restart_area(bits[k], [client_record(0, 0)], hdr=hdr[k]))
        if bad[k] == 'torn':
            b = b[:1022] + b'\x03\x03' + b[1024:]
        elif bad[k] == 'signature':
            b = b'XXXX' + b[4:]
        pages.append(b)
    good = [k for k in range(2) if bad[k] == 'ok']
    ok = len(good) > 0
    if ok:
        ok = ctx.And(v[0] == v[1] or len(good) == 1, bits[good[0]] >= 3, bits[good[0]] < 64, hdr[good[0]] >= 48)
    try:
        p = LogFile.LogFileParser(ctx.file(pages[0] + pages[1]))
    except LogFile.EmptyLogFileException:
        ctx.fail('a log file with data is taken for empty')
    except LogFile.LogFileException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(ok), 'a usable log file is refused')
        return
    ctx.outcome('opened')
    ctx.check(ok, 'an unusable log file is accepted')
    k = good[0]
    ctx.check(p.log_version == v[k], 'log file version')
    ctx.check(p.log_page_size == PAGE, 'log page size')
    ctx.check(p.get_wrapped_log_record_page_number() == (4 if v[k] == (1, 1) else 34), 'start of the circular area')
    lsn = ctx.int('lsn', 0, (1 << 64) - 1)
    for b in (3, 44, 63):
        if ctx.fork(bits[k] == b):
            ctx.check(p.lsn_to_seqnum(lsn) == lsn // (1 << (64 - b)), 'sequence number bits')


def h_edges(ctx):
    """A restart area that does not fit in its page, and client records that do not fit."""
    off = ctx.choice('off', [64, 4032, 4048, 4056, 4072, 4088])
    cnt = ctx.choice('count', [1, 30, 0xFFFF])
    area = p64(0) + p16(cnt) + p16(0xFFFF) + p16(0) + p16(0) + p32(44) + p16(64) + p16(ctx.choice('array', [8, 64])) + p64(0) + p32(0) + p16(48) + p16(64) + p32(1)
    body = b'RSTR' + p16(30) + p16(9) + p64(0) + p32(PAGE) + p32(PAGE) + p16(off) + p16(1) + p16(1)
    body = body + b'\0' * (off - len(body)) + area
    raw = protect((body + b'\0' * PAGE)[:PAGE], 0x0202, 30)
    try:
        p = LogFile.LogFileParser(ctx.file(raw + raw + b'\0' * PAGE * 3))
        l = list(p.parse_ntfs_records())
    except LogFile.LogFileException:
        ctx.outcome('refused')
        return
    ctx.outcome('parsed')
    ctx.check(len(l) == 0, 'a record is invented')


def h_short(ctx):
    n = ctx.choice('n', [0, 1, 4095, 4096, 8191, 8192])
    fill = ctx.choice('fill', [b'\xff', b'\x00'])
    try:
        LogFile.LogFileParser(ctx.file(fill * n))
    except LogFile.EmptyLogFileException:
        ctx.outcome('empty')
        ctx.check(n == 8192 and fill == b'\xff', 'taken for an empty log file')
        return
    except LogFile.LogFileException:
        ctx.outcome('refused')
        ctx.check(not (n == 8192 and fill == b'\xff'), 'an empty log file is not recognised')
        return
    ctx.fail('a log file without restart pages is accepted')


def h_record_page(ctx):
    """Fields of a log record page and of a log record header, and where a record may start."""
    sig = ctx.choice('sig', [b'RCRD', b'CHKD', b'BAAD', b'RSTR'])
    f = {k: ctx.int(k, 0, (1 << w) - 1) for k, w in (('last', 64), ('flags', 32), ('count', 16), ('pos', 16), ('next', 16), ('end', 64), ('off2', 32))}
    do = ctx.int('data_offset', 0, 4095)
    hdr = ctx.bytes('header', 48)
    body = sig + p16(40) + p16(9) + p64(f['last']) + p32(f['flags']) + p16(f['count']) + p16(f['pos']) + p16(f['next']) + b'\0' * 6 + p64(f['end']) + b'\0' * 20 + p32(f['off2'])
    at = ctx.choice('at', [64, 512, 4048, 4056])
    raw = body + b'\0' * (at - 64) + hdr
    raw = (raw + b'\0' * PAGE)[:PAGE]
    ctx.assume(raw[1022] != ord('C'))
    ok = ctx.And(sig != b'RSTR', do >= 58, do % 8 == 0)
    try:
        p = LogFile.LogRecordPage(protect(raw, 0x0909, 40), 4, do)
    except (LogFile.LogFileException, NotImplementedError):
        ctx.outcome('refused')
        ctx.check(ctx.Not(ok), 'a valid log record page is refused')
        return
    ctx.check(ok, 'an invalid log record page is accepted')
    ctx.check(ctx.And(p.get_last_lsn() == f['last'], p.get_flags() == f['flags'], p.get_page_count() == f['count'], p.get_page_position() == f['pos'], p.get_next_record_offset() == f['next'],
                      p.get_last_end_lsn() == f['end'], p.get_file_offset_2x() == f['off2'], p.get_file_offset_11() == sext(ctx, f['last'], 64)), 'fields of a log record page')
    try:
        r = p.get_log_record_at_offset(at, 48)
    except LogFile.LogFileException:
        ctx.outcome('no record')
        ctx.check(ctx.Or(at < do, at + 48 > PAGE), 'a record is not found')
        return
    ctx.outcome('record')
    ctx.check(ctx.And(at >= do, at + 48 <= PAGE), 'a record outside the data of a page')
    ctx.check(ctx.And(r.get_this_lsn() == u64(hdr, 0), r.get_client_previous_lsn() == u64(hdr, 8), r.get_client_undo_next_lsn() == u64(hdr, 16), r.get_client_data_length() == u32(hdr, 24),
                      r.get_client_id() == u32(hdr, 28), r.get_record_type() == u32(hdr, 32), r.get_transaction_id() == u32(hdr, 36), r.get_flags() == u16(hdr, 40)), 'fields of a log record header')


CASES = [
    {'name': 'page', 'fn': h_page, 'cfg': {}, 'bounds': 'every field of a restart page', 'expect': ['refused', 'accepted']},
    {'name': 'area', 'fn': h_area, 'cfg': {'lens': [0, 8, 20, 24, 40, 43, 44, 64, 300]}, 'bounds': 'restart areas of 9 lengths, every content', 'expect': ['refused', 'accepted']},
    {'name': 'client', 'fn': h_client, 'cfg': {'lens': [0, 20, 31, 32, 36, 160]}, 'bounds': 'client records of 6 lengths, every content', 'expect': ['refused', 'accepted']},
    {'name': 'clients', 'fn': h_clients, 'cfg': {}, 'bounds': 'up to 3 client records, and 20', 'expect': ['0 clients', '3 clients', '20 clients']},
    {'name': 'open', 'fn': h_open, 'cfg': {}, 'bounds': 'every state and version of the two restart pages', 'expect': ['refused', 'opened']},
    {'name': 'edges', 'fn': h_edges, 'cfg': {}, 'bounds': 'restart areas and client arrays that reach past the end of the page', 'expect': ['refused', 'parsed']},
    {'name': 'short', 'fn': h_short, 'cfg': {}, 'bounds': '6 sizes', 'expect': ['refused', 'empty']},
    {'name': 'record_page', 'fn': h_record_page, 'cfg': {}, 'bounds': 'every field of a log record page and header, every data offset', 'expect': ['refused', 'no record', 'record']},
]
