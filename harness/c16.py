"""C16: log sequence number arithmetic."""
from dfir_ntfs import LogFile
from harness.util import *
from harness.logutil import *

FILES = ['dfir_ntfs/LogFile.py']
ASSUMPTIONS = []


def parser(ctx, bits, ver=(1, 1)):
    area = restart_area(bits, [client_record(0, 0)])
    return LogFile.LogFileParser(ctx.file(image(ver, area, [], 4)))


def h_roundtrip(ctx, all_bits):
    bits = ctx.choice('bits', all_bits)
    p = parser(ctx, bits)
    span = 1 << (67 - bits)   # bytes addressable by the offset part
    pages = span // PAGE
    if pages:
        page = ctx.int('page', 0, pages - 1)
        off = ctx.int('off', 0, PAGE // 8 - 1) * 8
    else:
        page = 0
        off = ctx.int('off', 0, span // 8 - 1) * 8
    seq = ctx.int('seq', 0, (1 << bits) - 1)
    lsn = p.offset_to_lsn(page, off, seq)
    ctx.outcome('built')
    ctx.check(lsn == seq * (1 << (64 - bits)) + (page * PAGE + off) // 8, 'LSN of a position')
    a, b = p.lsn_to_offset(lsn)
    ctx.check(ctx.And(a == page, b == off), 'position of an LSN')
    ctx.check(p.lsn_to_seqnum(lsn) == seq, 'sequence number of an LSN')


def h_any(ctx, all_bits):
    bits = ctx.choice('bits', all_bits)
    p = parser(ctx, bits)
    lsn = ctx.int('lsn', 0, (1 << 64) - 1)
    page, off = p.lsn_to_offset(lsn)
    seq = p.lsn_to_seqnum(lsn)
    ctx.outcome('split')
    want = (lsn % (1 << (64 - bits))) * 8
    ctx.check(ctx.And(off >= 0, off < PAGE, page * PAGE + off == want), 'position of an LSN')
    ctx.check(seq == lsn // (1 << (64 - bits)), 'sequence number of an LSN')
    ctx.check(p.offset_to_lsn(page, off, seq) == lsn, 'an LSN does not survive splitting')


def h_order(ctx, all_bits):
    """Later positions have higher numbers, also across the wrap."""
    bits = ctx.choice('bits', all_bits)
    p = parser(ctx, bits)
    span = 1 << (64 - bits)
    s1, s2 = ctx.int('s1', 0, (1 << bits) - 1), ctx.int('s2', 0, (1 << bits) - 1)
    pages = span * 8 // PAGE
    p1, p2 = ctx.int('p1', 0, pages - 1), ctx.int('p2', 0, pages - 1)
    o1, o2 = ctx.int('o1', 0, 511) * 8, ctx.int('o2', 0, 511) * 8
    a, b = p.offset_to_lsn(p1, o1, s1), p.offset_to_lsn(p2, o2, s2)
    ctx.outcome('ordered')
    later = ctx.Or(s1 < s2, ctx.And(s1 == s2, ctx.Or(p1 < p2, ctx.And(p1 == p2, o1 < o2))))
    ctx.check(ctx.Implies(later, a < b), 'order of LSNs')
    ctx.check(ctx.Implies(a == b, ctx.And(s1 == s2, p1 == p2, o1 == o2)), 'different positions have the same LSN')


def h_bits(ctx):
    """Which counts of sequence number bits are accepted."""
    bits = ctx.int('bits', 0, (1 << 32) - 1)
    area = restart_area(bits, [client_record(0, 0)])
    try:
        p = LogFile.LogFileParser(ctx.file(image((1, 1), area, [], 4)))
    except LogFile.LogFileException:
        ctx.outcome('refused')
        ctx.check(ctx.Or(bits < 3, bits >= 64), 'a valid count of sequence number bits is refused')
        return
    ctx.outcome('accepted')
    ctx.check(ctx.And(bits >= 3, bits <= 63), 'an invalid count of sequence number bits is accepted')


ALL = list(range(3, 64))
CASES = [
    {'name': 'roundtrip', 'fn': h_roundtrip, 'cfg': {'all_bits': ALL}, 'bounds': 'sequence number bits 3..63, every page, 8-byte aligned offset and sequence number', 'expect': ['built']},
    {'name': 'any', 'fn': h_any, 'cfg': {'all_bits': ALL}, 'bounds': 'sequence number bits 3..63, every 64-bit LSN', 'expect': ['split']},
    {'name': 'order', 'fn': h_order, 'cfg': {'all_bits': [3, 20, 32, 40, 44, 47, 54]}, 'bounds': '7 counts of sequence number bits, every pair of positions', 'expect': ['ordered']},
    {'name': 'bits', 'fn': h_bits, 'cfg': {}, 'bounds': 'every 32-bit count of sequence number bits', 'expect': ['refused', 'accepted']},
]
