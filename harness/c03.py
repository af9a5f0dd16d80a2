"""C03: header fields and geometry of file record segments; file references."""
import struct
from dfir_ntfs import MFT
from harness.util import *

FILES = ['dfir_ntfs/MFT.py']
ASSUMPTIONS = ['Header fields are checked with the update sequence array not applied (C01 covers its application).']


def h_header(ctx, size):
    raw = ctx.bytes('frs', size, array=True)
    given = ctx.int('suggested', 0, (1 << 48) - 1)
    apply_usa = ctx.choice('apply', [False])
    try:
        frs = MFT.FileRecordSegment(raw, apply_usa, given)
    except MFT.MasterFileTableException:
        ctx.outcome('rejected')
        wf = ctx.And(ctx.Or(raw[0:4] == b'FILE', raw[0:4] == b'BAAD', raw[0:4] == b'CHKD'), u32(raw, 28) == size, u32(raw, 24) >= 48, u32(raw, 24) <= size,
                     u16(raw, 20) % 8 == 0, u16(raw, 20) >= u16(raw, 4) + 2 * u16(raw, 6), u16(raw, 20) >= 48, u16(raw, 20) <= size - 24)
        ctx.check(ctx.Not(wf), 'a well-formed header is rejected')
        return
    ctx.outcome('accepted')
    ctx.check(ctx.Or(raw[0:4] == b'FILE', raw[0:4] == b'BAAD', raw[0:4] == b'CHKD'), 'unknown signature accepted')
    ctx.check(frs.is_bad() == (raw[0:4] != b'FILE'), 'bad marker')
    ctx.check(frs.get_logfile_sequence_number() == u64(raw, 8), 'LSN')
    ctx.check(frs.get_sequence_number() == u16(raw, 16), 'sequence number')
    ctx.check(frs.get_reference_count() == u16(raw, 18), 'reference count')
    ctx.check(frs.get_first_attribute_offset() == u16(raw, 20), 'first attribute')
    ctx.check(frs.get_flags() == u16(raw, 22), 'flags')
    ctx.check(frs.is_in_use() == (u16(raw, 22) % 2 == 1), 'in-use flag')
    ctx.check(frs.get_first_free_byte_offset() == u32(raw, 24), 'first free byte')
    ctx.check(frs.get_file_record_segment_size() == u32(raw, 28), 'segment size')
    ctx.check(frs.get_base_file_record_segment() == u64(raw, 32), 'base reference')
    ctx.check(frs.is_base_file_record_segment() == (u64(raw, 32) == 0), 'base/child status')
    ctx.check(frs.get_next_attribute_instance() == u16(raw, 40), 'next instance')
    num = frs.get_master_file_table_number()
    want = ctx.If(u16(raw, 4) < 48, given, u16(raw, 42) * (1 << 32) + u32(raw, 44))
    ctx.check(num == want, 'record number')
    # geometry of an accepted segment
    decl = u32(raw, 28)
    ctx.check(ctx.Or(decl == 1024, decl == 4096), 'unsupported declared size accepted')
    ctx.check(decl <= size, 'declared size larger than the buffer')
    ctx.check(ctx.And(u32(raw, 24) >= 42, u32(raw, 24) <= decl), 'used size outside the segment')
    fa = u16(raw, 20)
    ctx.check(ctx.And(fa >= 8, fa % 8 == 0, fa + 24 <= decl), 'first attribute outside the segment')
    ctx.check(fa >= u16(raw, 4) + 2 * u16(raw, 6), 'first attribute inside the update sequence array')


def h_usa_geometry(ctx, size):
    raw = ctx.bytes('frs', size, array=True)
    try:
        MFT.FileRecordSegment(raw)
    except MFT.MasterFileTableException:
        ctx.outcome('rejected')
        return
    ctx.outcome('accepted')
    o, n = u16(raw, 4), u16(raw, 6)
    ctx.check((n - 1) * 512 == size, 'update sequence array does not cover the buffer')
    ctx.check(ctx.And(o >= 42, o + 2 * n < size, o <= 506), 'update sequence array out of place')


def h_size(ctx):
    n = ctx.int('n', 0, 5000)
    raw = ctx.bytes('frs', n, array=True)
    apply_usa = ctx.choice('apply', [True, False])
    try:
        MFT.FileRecordSegment(raw, apply_usa)
    except MFT.MasterFileTableException:
        ctx.outcome('rejected')
        return
    ctx.outcome('accepted')
    ctx.check(ctx.Or(n == 1024, n == 4096), 'a buffer of an unsupported size is accepted')


def h_reference(ctx):
    num = ctx.int('number', 0, (1 << 48) - 1)
    seq = ctx.int('sequence', 0, 0xFFFF)
    ref = MFT.EncodeFileRecordSegmentReference(num, seq)
    ctx.check(ctx.And(ref >= 0, ref < (1 << 64)), 'reference does not fit 64 bits')
    ctx.check(ref % (1 << 48) == num, 'reference layout: number')
    ctx.check(ref >> 48 == seq, 'reference layout: sequence')
    a, b = MFT.DecodeFileRecordSegmentReference(ref)
    ctx.check(ctx.And(a == num, b == seq), 'decode(encode) differs')
    x = ctx.int('reference', 0, (1 << 64) - 1)
    a, b = MFT.DecodeFileRecordSegmentReference(x)
    ctx.check(MFT.EncodeFileRecordSegmentReference(a, b) == x, 'encode(decode) differs')
    ctx.check(ctx.And(a < (1 << 48), b < (1 << 16)), 'decoded parts out of range')
    ctx.outcome('done')


CASES = [
    {'name': 'header_1024', 'fn': h_header, 'cfg': {'size': 1024}, 'bounds': 'every 1024-byte segment', 'expect': ['accepted', 'rejected']},
    {'name': 'header_4096', 'fn': h_header, 'cfg': {'size': 4096}, 'bounds': 'every 4096-byte segment', 'expect': ['accepted', 'rejected']},
    {'name': 'usa_geometry_1024', 'fn': h_usa_geometry, 'cfg': {'size': 1024}, 'bounds': 'every 1024-byte segment', 'expect': ['accepted', 'rejected']},
    {'name': 'usa_geometry_4096', 'fn': h_usa_geometry, 'cfg': {'size': 4096}, 'bounds': 'every 4096-byte segment', 'expect': ['accepted', 'rejected']},
    {'name': 'buffer_size', 'fn': h_size, 'bounds': 'every buffer of 0..5000 bytes', 'expect': ['accepted', 'rejected']},
    {'name': 'reference', 'fn': h_reference, 'bounds': 'every 48-bit number, 16-bit sequence number, 64-bit reference', 'expect': ['done']},
]
