"""C02: multi-sector protection of index buffers and log pages."""
import binascii
from dfir_ntfs import Attributes, LogFile
from harness.util import *

FILES = ['dfir_ntfs/Attributes.py', 'dfir_ntfs/LogFile.py']
ASSUMPTIONS = ['The update sequence array does not overlap the last two bytes of the first 512-byte stride.',
               'CRC-32 is an uninterpreted function of the block: the harness writes its value, or any other value, into the block.']


def apply(which, raw):
    if which == 'index':
        return Attributes.VerifyAndUnprotectIndexSectors(bytearray(raw))
    try:
        if which == 'log':
            buf, end = LogFile.UnprotectSectors(bytearray(raw))
            return buf
        if which == 'page':
            return LogFile.LogRecordPage(raw).buf
    except LogFile.LogFileException:
        return None


def h_usa(ctx, size, which):
    n = size // 512
    raw = ctx.bytes('buf', size, array=True)
    uo, us = u16(raw, 4), u16(raw, 6)
    low = 40 if which == 'index' else 8
    ctx.assume(ctx.Or(uo + us * 2 <= 510, uo < low, uo > 506, us != n + 1))
    if which != 'index':
        ctx.assume(ctx.Or(uo < low, uo > 506, ctx.byte_at(raw, uo + 4) != ord('C')))  # the checksummed form has its own case
    j = ctx.int('j', 0, size - 1)
    out = apply(which, raw)
    ok = ctx.And(uo >= low, uo <= 506, us == n + 1)
    if which == 'index':
        ok = ctx.And(ok, raw[0:4] == b'INDX')
    usn = [ctx.byte_at(raw, uo), ctx.byte_at(raw, uo + 1)]
    for k in range(1, n + 1):
        ok = ctx.And(ok, raw[512 * k - 2] == usn[0], raw[512 * k - 1] == usn[1])
    if out is None:
        ctx.outcome('rejected')
        ctx.check(ctx.Not(ok), 'an intact block is rejected')
        return
    ctx.outcome('accepted')
    ctx.check(ok, 'a torn or malformed block is accepted')
    ctx.check(len(out) == size, 'length changed')
    for k in range(1, n + 1):
        for b in (0, 1):
            ctx.check(out[512 * k - 2 + b] == ctx.byte_at(raw, uo + 2 * k + b), 'a protected word is not restored')
    ctx.check(ctx.Implies(j % 512 < 510, ctx.byte_at(out, j) == ctx.byte_at(raw, j)), 'a byte outside the protected words changed')


def h_length(ctx):
    n = ctx.int('n', 0, 2000)
    raw = ctx.bytes('buf', n, array=True)
    which = ctx.choice('which', ['index', 'log'])
    ctx.assume(ctx.byte_at(raw, 5) == 0)
    ctx.assume(ctx.byte_at(raw, 4) <= 64)
    ctx.assume(ctx.byte_at(raw, ctx.byte_at(raw, 4) + 4) != ord('C'))
    out = apply(which, raw)
    if out is None:
        ctx.outcome('rejected')
        return
    ctx.outcome('accepted')
    ctx.check(ctx.And(len(out) == n, n >= 1024, n % 512 == 0), 'a block of an unsupported length is accepted')


def h_crc(ctx, size, off):
    n = size // 512
    cnt = 2 * (n + 1)
    pre = b'RCRD' + p16(off) + p16(n + 1) + ctx.bytes('pre', off - 8)
    post = ctx.bytes('post', size - off - cnt)
    valid = ctx.bool('valid')
    other = ctx.int('other', 0, 0xFFFFFFFF)
    good = binascii.crc32(pre + b'\x00' * cnt + post) & 0xFFFFFFFF
    ctx.assume(other != good)
    tag = ctx.choice('tag', [b'CRC4', b'CRC3'])
    rest = ctx.bytes('rest', cnt - 8) if cnt > 8 else b''
    usa = p32(ctx.If(valid, good, other)) + tag + rest
    raw = pre + usa[:cnt] + post if cnt >= 8 else pre + usa + post[8 - cnt:]
    out = apply('log', raw)
    if ctx.fork(ctx.And(valid, tag == b'CRC4')):
        ctx.outcome('checksum')
        ctx.check(out is not None, 'a block with a valid checksum is rejected')
        ctx.check(out == raw, 'a block with a valid checksum is changed')
        return
    if ctx.fork(valid):
        return
    usn = [raw[off], raw[off + 1]]
    ok = True
    for k in range(1, n + 1):
        ok = ctx.And(ok, raw[512 * k - 2] == usn[0], raw[512 * k - 1] == usn[1])
    if out is None:
        ctx.outcome('rejected')
        ctx.check(ctx.Not(ok), 'an intact block is rejected')
        return
    ctx.outcome('accepted')
    ctx.check(ok, 'a torn block is accepted because of an invalid checksum')
    for k in range(1, n + 1):
        for b in (0, 1):
            ctx.check(out[512 * k - 2 + b] == raw[off + 2 * k + b], 'a protected word is not restored')


def h_allocation(ctx, count, tail):
    """A $INDEX_ALLOCATION stream of index buffers of 1024 bytes, each possibly torn."""
    bufs, facts = [], []
    for i in range(count):
        sig = ctx.choice('sig', [b'INDX', b'XXXX'])
        usn = ctx.int('usn', 0, 0xFFFF)
        tails = [ctx.int('tail', 0, 0xFFFF) for _ in range(2)]
        saved = [ctx.int('saved', 0, 0xFFFF) for _ in range(2)]
        usize = ctx.choice('usize', [3, 2]) if i == 0 else 3
        body = ctx.bytes('body', 16)
        b = sig + p16(40) + p16(usize) + body + b'\x00' * 16 + p16(usn) + p16(saved[0]) + p16(saved[1])
        b = b + bytes([i + 1]) * (510 - len(b)) + p16(tails[0]) + bytes([i + 101]) * 510 + p16(tails[1])
        bufs.append(b)
        facts.append((ctx.And(sig == b'INDX', usize == 3, tails[0] == usn, tails[1] == usn), saved, body, i))
    data = b''
    for b in bufs:
        data = data + b
    f = ctx.file(data + b'\x00' * tail)
    ia = Attributes.IndexAllocation(f)
    got = list(ia.index_buffers())
    if not ctx.fork(facts[0][0]):
        ctx.outcome('unknown')
        ctx.check(len(got) == 0, 'index buffers are reported although the first one is damaged')
        return
    want = [x for x in facts if ctx.fork(x[0])]
    ctx.outcome('%d intact' % len(want))
    ctx.check(ia.index_buffer_size == 1024, 'size of index buffers')
    ctx.check(len(got) == len(want), 'number of index buffers')
    for g, (_, saved, body, i) in zip(got, want):
        ctx.check(g.get_logfile_sequence_number() == u64(body, 0), 'LSN')
        ctx.check(g.get_this_block() == u64(body, 8), 'block number')
        b = g.index_buffer_raw
        ctx.check(ctx.And(len(b) == 1024, u16(b, 510) == saved[0], u16(b, 1022) == saved[1]), 'protected words')
        ctx.check(ctx.And(b[509] == i + 1, b[600] == i + 101), 'order of index buffers')


CASES = [
    {'name': 'index_1024', 'fn': h_usa, 'cfg': {'size': 1024, 'which': 'index'}, 'bounds': 'every 1024-byte index buffer', 'expect': ['accepted', 'rejected']},
    {'name': 'index_4096', 'fn': h_usa, 'cfg': {'size': 4096, 'which': 'index'}, 'bounds': 'every 4096-byte index buffer', 'expect': ['accepted', 'rejected']},
    {'name': 'log_1024', 'fn': h_usa, 'cfg': {'size': 1024, 'which': 'log'}, 'bounds': 'every 1024-byte log block', 'expect': ['accepted', 'rejected']},
    {'name': 'log_4096', 'fn': h_usa, 'cfg': {'size': 4096, 'which': 'log'}, 'bounds': 'every 4096-byte log block', 'expect': ['accepted', 'rejected']},
    {'name': 'length', 'fn': h_length, 'bounds': 'every block of up to 2000 bytes', 'expect': ['accepted', 'rejected']},
    {'name': 'crc_4096', 'fn': h_crc, 'cfg': {'size': 4096, 'off': 40}, 'bounds': 'every checksummed 4096-byte block with its array at 40', 'expect': ['accepted', 'rejected', 'checksum']},
    {'name': 'crc_2048', 'fn': h_crc, 'cfg': {'size': 2048, 'off': 30}, 'bounds': 'every checksummed 2048-byte block with its array at 30', 'expect': ['accepted', 'rejected', 'checksum']},
    {'name': 'allocation', 'fn': h_allocation, 'cfg': {'count': 2, 'tail': 0}, 'bounds': 'two 1024-byte index buffers, any of them torn', 'expect': ['unknown', '1 intact', '2 intact']},
    {'name': 'allocation_tail', 'fn': h_allocation, 'cfg': {'count': 3, 'tail': 500}, 'bounds': 'three 1024-byte index buffers and a partial one', 'expect': ['unknown', '1 intact', '3 intact']},
]
