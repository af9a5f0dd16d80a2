"""C19: contents of NTFS log records and restart areas."""
from dfir_ntfs import LogFile
from harness.util import *

FILES = ['dfir_ntfs/LogFile.py']
ASSUMPTIONS = ['Redo and undo data with a nonzero length and a zero offset are not specified.']
RES = [2, 3, 4, 5, 6, 7, 9, 0x0B, 0x0C, 0x0D, 0x11, 0x13, 0x21, 0x23, 0x25]
NONRES = [8, 0x0E, 0x0F, 0x10, 0x12, 0x14, 0x15, 0x16, 0x22, 0x24]
NAMES = ['Noop', 'CompensationLogRecord', 'InitializeFileRecordSegment', 'DeallocateFileRecordSegment', 'WriteEndOfFileRecordSegment', 'CreateAttribute', 'DeleteAttribute', 'UpdateResidentValue',
         'UpdateNonresidentValue', 'UpdateMappingPairs', 'DeleteDirtyClusters', 'SetNewAttributeSizes', 'AddIndexEntryRoot', 'DeleteIndexEntryRoot', 'AddIndexEntryAllocation', 'DeleteIndexEntryAllocation',
         'WriteEndOfIndexBuffer', 'SetIndexEntryVcnRoot', 'SetIndexEntryVcnAllocation', 'UpdateFileNameRoot', 'UpdateFileNameAllocation', 'SetBitsInNonresidentBitMap', 'ClearBitsInNonresidentBitMap', 'HotFix',
         'EndTopLevelAction', 'PrepareTransaction', 'CommitTransaction', 'ForgetTransaction', 'OpenNonresidentAttribute', 'OpenAttributeTableDump', 'AttributeNamesDump', 'DirtyPageTableDump',
         'TransactionTableDump', 'UpdateRecordDataRoot', 'UpdateRecordDataAllocation', 'UpdateRelativeDataIndex', 'UpdateRelativeDataAllocation', 'ZeroEndOfFileRecord']


def one_of(ctx, v, l):
    return ctx.Or(*[v == x for x in l])


def open_record(ctx, n, cluster):
    raw = ctx.bytes('record', n, array=True)
    lsn, tid = ctx.int('lsn', 0, (1 << 64) - 1), ctx.int('tid', 0, (1 << 32) - 1)
    try:
        r = LogFile.ClientData(raw, 1, lsn, tid, cluster).data_decoded()
    except LogFile.ClientException:
        ctx.outcome('refused')
        ctx.check(n < 32, 'a complete log record is refused')
        return raw, None
    ctx.check(n >= 32, 'a truncated log record is accepted')
    ctx.check(type(r) is LogFile.NTFSLogRecord, 'kind of record')
    ctx.check(ctx.And(r.lsn == lsn, r.transaction_id == tid), 'LSN and transaction')
    return raw, r


def h_fields(ctx, n):
    raw, r = open_record(ctx, n, 4096)
    if r is None:
        return
    ctx.outcome('accepted')
    A16 = lambda o: a16(ctx, raw, o)
    for name, o in (('redo_operation', 0), ('undo_operation', 2), ('redo_length', 6), ('undo_length', 10), ('target_attribute', 12), ('lcns_to_follow', 14), ('record_offset', 16),
                    ('attribute_offset', 18), ('cluster_block_offset', 20), ('target_block_size', 22)):
        ctx.check(getattr(r, 'get_' + name)() == A16(o), name)
    ctx.check(r.get_target_vcn() == sext(ctx, a64(ctx, raw, 24), 64), 'target VCN')
    for name, o in (('redo', 4), ('undo', 8)):
        bad = ctx.And(A16(o) > 0, A16(o) < 32)
        try:
            v = getattr(r, 'get_%s_offset' % name)()
        except LogFile.ClientException:
            ctx.check(bad, 'a valid offset is refused')
        else:
            ctx.check(ctx.And(ctx.Not(bad), v == A16(o)), name + ' offset')


def h_data(ctx, n, which):
    raw, r = open_record(ctx, n, 4096)
    o, l = (a16(ctx, raw, 4), a16(ctx, raw, 6)) if which == 'redo' else (a16(ctx, raw, 8), a16(ctx, raw, 10))
    ctx.assume(ctx.Or(l == 0, o != 0))
    j = ctx.int('j', 0, n - 1)
    try:
        d = r.get_redo_data() if which == 'redo' else r.get_undo_data()
    except LogFile.ClientException:
        ctx.outcome('refused')
        ctx.check(ctx.And(l > 0, o < 32), 'valid data are refused')
        return
    ctx.check(ctx.Or(l == 0, o >= 32), 'data overlapping the header are accepted')
    if ctx.fork(ctx.Or(l == 0, o >= n)):
        ctx.outcome('nothing')
        ctx.check(len(d) == 0, 'length of the data')
        return
    full = ctx.fork(o + l <= n)
    ctx.outcome('complete' if full else 'clipped')
    want = l if full else n - o
    ctx.check(len(d) == want, 'length of the data')
    if ctx.fork(j < want):
        ctx.check(ctx.byte_at(d, j) == ctx.byte_at(raw, o + j), 'content of the data')


def h_lcns(ctx, n):
    raw, r = open_record(ctx, n, 4096)
    cnt = a16(ctx, raw, 14)
    room = (n - 32) // 8
    try:
        l = r.get_lcns_for_page()
    except LogFile.ClientException:
        ctx.outcome('refused')
        ctx.check(cnt > room, 'a complete list of clusters is refused')
        return
    ctx.outcome('decoded')
    ctx.check(ctx.And(cnt <= room, cnt == len(l)), 'number of clusters')
    for k, v in enumerate(l):
        ctx.check(v == sext(ctx, a64(ctx, raw, 32 + 8 * k), 64), 'cluster number')


def h_target(ctx, cluster, bits):
    """Where a logged operation was applied."""
    redo, undo = ctx.int('redo', 0, 0xFFFF), ctx.int('undo', 0, 0xFFFF)
    vcn = ctx.int('vcn', -(1 << bits), (1 << bits) - 1)
    rec, att, blk = [ctx.int(x, 0, 0xFFFF) for x in ('rec', 'att', 'blk')]
    size = ctx.choice('size', [0, 1, 2, 3, 8, 65535])
    raw = p16(redo) + p16(undo) + b'\0' * 8 + p16(ctx.int('target', 0, 0xFFFF)) + p16(0) + p16(rec) + p16(att) + p16(blk) + p16(size) + p64(vcn % (1 << 64))
    r = LogFile.NTFSLogRecord(raw, 5, 6, cluster)
    res = ctx.Or(one_of(ctx, redo, RES), one_of(ctx, undo, RES))
    non = ctx.And(ctx.Not(res), ctx.Or(one_of(ctx, redo, NONRES), one_of(ctx, undo, NONRES)))
    num, off = r.calculate_mft_target_number(), r.calculate_offset_in_target()
    where = vcn * cluster + blk * 512
    if ctx.fork(res):
        ctx.outcome('resident')
        ctx.check(num is not None and off is not None, 'target of a resident update')
        ctx.check(num == where // (size * 512 if size else 1024), 'number of the target segment')
        ctx.check(off == rec + att, 'offset in the target segment')
        return
    ctx.check(num is None, 'a target segment for another kind of operation')
    if ctx.fork(non):
        ctx.outcome('nonresident')
        ctx.check(off is not None, 'target of a nonresident update')
        ctx.check(off == where + rec + att, 'offset in the target stream')
        return
    ctx.outcome('other')
    ctx.check(off is None, 'an offset for another kind of operation')
    r.oat = {0: (1, 'x')}
    ctx.check(r.calculate_mft_target_reference_and_name() is None, 'a target stream for another kind of operation')


def h_restart(ctx, lens):
    n = ctx.choice('n', lens)
    raw = ctx.bytes('area', n, array=True)
    lsn = ctx.int('lsn', 0, (1 << 64) - 1)
    try:
        r = LogFile.ClientData(raw, 2, lsn, 0, 4096).data_decoded()
    except LogFile.ClientException:
        ctx.outcome('refused')
        ctx.check(n < 64, 'a complete restart area is refused')
        return
    ctx.outcome('accepted')
    ctx.check(n >= 64, 'a truncated restart area is accepted')
    ctx.check(type(r) is LogFile.NTFSRestartArea, 'kind of record')
    ctx.check(r.lsn == lsn, 'LSN')
    for name, o, w in (('major_version', 0, 4), ('minor_version', 4, 4), ('start_of_checkpoint_lsn', 8, 8), ('open_attribute_table_lsn', 16, 8), ('attribute_names_lsn', 24, 8), ('dirty_page_table_lsn', 32, 8),
                       ('transaction_table_lsn', 40, 8), ('open_attribute_table_length', 48, 4), ('attribute_names_length', 52, 4), ('dirty_page_table_length', 56, 4), ('transaction_table_length', 60, 4),
                       ('usn_journal_restart_offset', 64, -8), ('last_lsn', 72, 8), ('bytes_per_cluster', 80, 4), ('usn_journal_reference', 88, 8), ('usn_base', 96, -8), ('oldest_lsn', 104, 8)):
        v = getattr(r, 'get_' + name)()
        if o + abs(w) > n:
            ctx.check(v is None, name + ' is made up')
            continue
        want = a32(ctx, raw, o) if w == 4 else a64(ctx, raw, o)
        if w < 0:
            want = sext(ctx, want, 64)
        ctx.check(v is not None, name + ' is missing')
        ctx.check(v == want, name)


def h_type(ctx):
    t = ctx.int('type', 0, 0xFFFFFFFF)
    raw = ctx.bytes('buf', 64)
    try:
        r = LogFile.ClientData(raw, t, 1, 2, 4096).data_decoded()
    except NotImplementedError:
        ctx.outcome('unknown')
        ctx.check(ctx.And(t != 1, t != 2), 'a known record type is refused')
        return
    ctx.outcome('known')
    ctx.check(ctx.Or(ctx.And(t == 1, type(r) is LogFile.NTFSLogRecord), ctx.And(t == 2, type(r) is LogFile.NTFSRestartArea)), 'kind of record')


def h_entries(ctx):
    """Open attribute entries of both versions."""
    ver = ctx.choice('ver', [0, 1])
    n = ctx.choice('n', [0, 39, 40, 43, 44, 50])
    raw = ctx.bytes('entry', n)
    need = 40 if ver else 44
    try:
        e = (LogFile.OpenAttributeEntry1 if ver else LogFile.OpenAttributeEntry0)(raw)
    except LogFile.ClientException:
        ctx.outcome('refused')
        ctx.check(n < need, 'a complete entry is refused')
        return
    ctx.outcome('accepted')
    ctx.check(n >= need, 'a truncated entry is accepted')
    ctx.check(e.get_allocated_or_next_free() == u32(raw, 0), 'free link')
    ctx.check(e.get_file_reference() == u64(raw, 16 if ver else 8), 'file reference')
    ctx.check(e.get_lsn_of_open_record() == u64(raw, 24 if ver else 16), 'LSN of the open record')
    ctx.check(e.get_attribute_type_code() == u32(raw, 8 if ver else 28), 'attribute type')
    ctx.check(e.get_bytes_per_index_buffer() == u32(raw, 4 if ver else 40), 'bytes per index buffer')
    if not ver:
        ctx.check(e.get_table_index() == u32(raw, 4), 'table index')


def h_names(ctx, lens):
    """An array of attribute names: the name stored for an index is found, and nothing else."""
    idx = [ctx.int('idx', 0, 0xFFFF) for _ in lens]
    names = [ctx.bytes('name', 2 * l) for l in lens]
    for nm in names:
        for k in range(0, len(nm), 2):
            ctx.assume(nm[k + 1] < 0xD8)
    buf = b''
    for i, nm in zip(idx, names):
        buf = buf + p16(i) + p16(len(nm)) + nm + b'\0\0'
    buf = buf + b'\0' * 4
    q = ctx.int('query', 1, 0xFFFF)
    got = LogFile.AttributeNamesDumpParser(buf).find_name_by_index(q)
    for k in range(len(lens)):
        if ctx.fork(idx[k] == q):
            ctx.outcome('found')
            ctx.check(got is not None, 'a name is not found')
            ctx.check(got == names[k].decode('utf-16le'), 'name')
            return
    ctx.outcome('absent')
    ctx.check(got is None, 'a name is invented')


def h_names_any(ctx, n):
    """Every buffer: the search terminates, and reports only what an entry that fits stores."""
    raw = ctx.bytes('buf', n)
    for k in range(n // 2):
        ctx.assume(raw[2 * k + 1] == 0)
    q = ctx.int('query', 0, 0xFFFF)
    got = LogFile.AttributeNamesDumpParser(raw).find_name_by_index(q)
    ctx.outcome('absent' if got is None else 'found')
    pos = 0
    while n - pos >= 8:
        i, l = u16(raw, pos), u16(raw, pos + 2)
        if ctx.fork(i == q):
            ctx.check(got is not None, 'a name is not found')
            return
        nx = pos + 6 + l
        if ctx.fork(nx + 8 > n):
            break
        pos = ctx.concrete(nx)
    ctx.check(got is None, 'a name is invented')


def h_table(ctx, n, ver):
    raw = ctx.bytes('table', n)
    q = ctx.int('query', 0, 0xFFFF)
    need, o = (40, 16) if ver else (44, 8)
    try:
        got = LogFile.OpenAttributeTableDumpParser(raw, ver).find_file_reference_by_index(q)
    except LogFile.ClientException:
        ctx.outcome('absent')
        ctx.check(q + need > n, 'an entry is not found')
        return
    ctx.outcome('found')
    ctx.check(q + need <= n, 'an entry outside the table is reported')
    ctx.check(got == a64(ctx, raw, q + o), 'file reference')


def h_opnames(ctx):
    op = ctx.int('op', 0, 0xFFFF)
    got = LogFile.ResolveNTFSOperation(op)
    if ctx.fork(op < len(NAMES)):
        ctx.outcome('known')
        ctx.check(got == NAMES[ctx.concrete(op)], 'name of an operation')
    else:
        ctx.outcome('unknown')
        ctx.check(got == hex(op), 'number of an unknown operation')


CASES = [
    {'name': 'fields_32', 'fn': h_fields, 'cfg': {'n': 32}, 'bounds': 'every 32-byte log record', 'expect': ['accepted']},
    {'name': 'fields_96', 'fn': h_fields, 'cfg': {'n': 96}, 'bounds': 'every 96-byte log record', 'expect': ['accepted']},
    {'name': 'fields_31', 'fn': h_fields, 'cfg': {'n': 31}, 'bounds': 'every 31-byte log record', 'expect': ['refused']},
    {'name': 'redo', 'fn': h_data, 'cfg': {'n': 80, 'which': 'redo'}, 'bounds': 'every 80-byte log record', 'expect': ['refused', 'nothing', 'complete', 'clipped']},
    {'name': 'undo', 'fn': h_data, 'cfg': {'n': 80, 'which': 'undo'}, 'bounds': 'every 80-byte log record', 'expect': ['refused', 'nothing', 'complete', 'clipped']},
    {'name': 'lcns_48', 'fn': h_lcns, 'cfg': {'n': 48}, 'bounds': 'every 48-byte log record', 'expect': ['refused', 'decoded']},
    {'name': 'lcns', 'fn': h_lcns, 'cfg': {'n': 60}, 'bounds': 'every 60-byte log record', 'expect': ['refused', 'decoded']},
    {'name': 'target', 'fn': h_target, 'cfg': {'cluster': 4096, 'bits': 40}, 'bounds': 'every operation, 40-bit VCN, clusters of 4096 bytes', 'expect': ['resident', 'nonresident', 'other']},
    {'name': 'target_512', 'fn': h_target, 'cfg': {'cluster': 512, 'bits': 20}, 'bounds': 'every operation, 20-bit VCN, clusters of 512 bytes', 'expect': ['resident', 'nonresident', 'other']},
    {'name': 'restart', 'fn': h_restart, 'cfg': {'lens': [0, 63, 64, 71, 72, 80, 83, 84, 88, 95, 96, 104, 111, 112, 120]}, 'bounds': 'restart areas of 15 lengths, every content', 'expect': ['refused', 'accepted']},
    {'name': 'type', 'fn': h_type, 'cfg': {}, 'bounds': 'every record type', 'expect': ['known', 'unknown']},
    {'name': 'entries', 'fn': h_entries, 'cfg': {}, 'bounds': 'open attribute entries of both versions, 6 lengths', 'expect': ['refused', 'accepted']},
    {'name': 'names', 'fn': h_names, 'cfg': {'lens': [1, 0, 2]}, 'bounds': 'three attribute names', 'expect': ['found', 'absent']},
    {'name': 'names_any', 'fn': h_names_any, 'cfg': {'n': 16}, 'bounds': 'every 16-byte array of attribute names with 8-bit indexes, lengths and characters', 'expect': ['found', 'absent']},
    {'name': 'table_0', 'fn': h_table, 'cfg': {'n': 100, 'ver': 0}, 'bounds': 'every 100-byte open attribute table, version 0', 'expect': ['found', 'absent']},
    {'name': 'table_1', 'fn': h_table, 'cfg': {'n': 100, 'ver': 1}, 'bounds': 'every 100-byte open attribute table, version 1', 'expect': ['found', 'absent']},
    {'name': 'opnames', 'fn': h_opnames, 'cfg': {}, 'bounds': 'every operation code', 'expect': ['known', 'unknown']},
]
