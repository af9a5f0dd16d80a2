"""C22: the NTFS boot sector."""
from dfir_ntfs import BootSector
from harness.util import *

FILES = ['dfir_ntfs/BootSector.py']
ASSUMPTIONS = []


def val(ctx, fn, *a):
    """(value, None) or (None, True) when the field is refused."""
    try:
        return fn(*a), False
    except BootSector.BootSectorException:
        return None, True


def field(ctx, name, fn, valid, want):
    got, refused = val(ctx, fn)
    if refused:
        ctx.outcome(name + ' refused')
        ctx.check(ctx.Not(valid), name + ': a valid value is refused')
        return None
    ctx.outcome(name)
    ctx.check(valid, name + ': an invalid value is accepted')
    ctx.check(got == want, name + ': wrong value')
    return got


def h_open(ctx, size):
    raw = ctx.bytes('bs', size)
    ok = raw[3:11] == b'NTFS    ' if size >= 512 and size % 512 == 0 else False
    try:
        b = BootSector.BootSector(raw)
    except BootSector.BootSectorException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(ok), 'an NTFS boot sector is refused')
        return
    ctx.outcome('accepted')
    ctx.check(ok, 'something that is not an NTFS boot sector is accepted')
    ctx.check(b.get_signature() == b'NTFS    ', 'signature')


def build(ctx, size=512):
    return ctx.bytes('head', 3) + b'NTFS    ' + ctx.bytes('bs', size - 11)


def signed(ctx, x):
    return ctx.If(x >= 128, x - 256, x)


def pow2(ctx, e, lo, hi):
    r = 1 << hi
    for k in range(lo, hi):
        r = ctx.If(e == k, 1 << k, r)
    return r


def geometry(ctx, raw):
    bps = u8(raw, 12) * 256
    bps_ok = ctx.And(u8(raw, 11) == 0, bps >= 512, bps % 512 == 0)
    spc_raw = u8(raw, 13)
    spc_ok = spc_raw != 0
    spc = ctx.If(spc_raw <= 0x80, spc_raw, pow2(ctx, 256 - spc_raw, 1, 127))
    return bps, bps_ok, spc, spc_ok


def h_fields(ctx):
    raw = build(ctx)
    b = BootSector.BootSector(raw)
    bps, bps_ok, spc, spc_ok = geometry(ctx, raw)
    field(ctx, 'sector size', b.get_bytes_per_sector, bps_ok, bps)
    field(ctx, 'cluster size', b.get_sectors_per_cluster, spc_ok, spc)


def h_numbers(ctx):
    raw = build(ctx)
    b = BootSector.BootSector(raw)
    for name, fn, off in (('sectors', b.get_total_number_of_sectors, 40), ('mft', b.get_first_mft_cluster, 48), ('mirror', b.get_first_mftmirr_cluster, 56)):
        field(ctx, name, fn, u64(raw, off) != 0, u64(raw, off))
    ctx.check(b.get_serial_number() == u64(raw, 72), 'serial number')
    has = ctx.And(u16(raw, 0) != 0, u16(raw, 510) == 0xAA55)
    got = b.is_boot_code_present()
    ctx.check(ctx.And(ctx.Implies(has, got), ctx.Implies(got, has)), 'boot code')


def h_record(ctx, which):
    raw = build(ctx)
    b = BootSector.BootSector(raw)
    bps, bps_ok, spc, spc_ok = geometry(ctx, raw)
    off, fn = (64, b.get_file_record_segment_size) if which == 'frs' else (68, b.get_index_record_size)
    v = signed(ctx, u8(raw, off))
    if ctx.fork(v < 0):
        field(ctx, which, fn, True, pow2(ctx, 0 - v, 1, 128))
        return
    valid = ctx.And(v > 0, bps_ok, spc_ok)
    got, refused = val(ctx, fn)
    if refused:
        ctx.outcome(which + ' refused')
        ctx.check(ctx.Not(valid), which + ': a valid value is refused')
        return
    ctx.outcome(which)
    ctx.check(valid, which + ': an invalid value is accepted')
    # the geometry getters are decided by the case 'geometry'
    ctx.check(got == v * b.get_sectors_per_cluster() * b.get_bytes_per_sector(), which + ': wrong value')


CASES = [
    {'name': 'open_%d' % n, 'fn': h_open, 'cfg': {'size': n}, 'bounds': 'every buffer of %d bytes' % n, 'expect': ['refused', 'accepted'] if n >= 512 and n % 512 == 0 else ['refused']}
    for n in (0, 511, 512, 513, 1024, 1536, 4096, 4100)
] + [
    {'name': 'geometry', 'fn': h_fields, 'cfg': {}, 'bounds': 'every boot sector of 512 bytes', 'expect': ['sector size', 'sector size refused', 'cluster size', 'cluster size refused']},
    {'name': 'numbers', 'fn': h_numbers, 'cfg': {}, 'bounds': 'every boot sector of 512 bytes', 'expect': ['sectors', 'mft', 'mirror', 'sectors refused', 'mft refused', 'mirror refused']},
    {'name': 'frs', 'fn': h_record, 'cfg': {'which': 'frs'}, 'bounds': 'every boot sector of 512 bytes', 'expect': ['frs', 'frs refused']},
    {'name': 'index', 'fn': h_record, 'cfg': {'which': 'index'}, 'bounds': 'every boot sector of 512 bytes', 'expect': ['index', 'index refused']},
]
