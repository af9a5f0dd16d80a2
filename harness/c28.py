"""C28: the boot sector of FAT12/16/32 volumes: type and geometry."""
from dfir_ntfs.addons import FAT
from harness.util import *

FILES = ['dfir_ntfs/addons/FAT.py']
ASSUMPTIONS = ['The number of FATs, the sector size and the cluster size are chosen from a list that has valid and invalid ones; all other fields are arbitrary.']
FAT.WARN_FUNC = lambda *a: None


def bs(ctx, bps, spc, fats, sig=b'\x55\xaa', jmp=b'\0\0\0'):
    """A boot sector: which of the fields for the number of sectors and the size of a FAT are set is a choice."""
    tk, fk = ctx.choice('total', ['16', '32', '64']), ctx.choice('fat', ['16', '32'])
    t16, t32 = p16(ctx.int('t16', 1, 0xFFFF)), p32(ctx.int('t32', 1, 0xFFFFFFFF))
    if tk != '16':
        t16 = b'\0\0'
        if tk != '32':
            t32 = b'\0' * 4
    f16 = p16(ctx.int('f16', 1, 0xFFFF)) if fk == '16' else b'\0\0'
    raw = jmp + b'OEMOEMOE' + p16(bps) + p8(spc) + ctx.bytes('rsvd', 2) + p8(fats) + ctx.bytes('root', 2) + t16 + b'\xf8' + f16
    raw = raw + b'\0' * 8 + t32 + ctx.bytes('f32', 4) + ctx.bytes('flags', 2) + ctx.bytes('ver', 2) + b'\0' * 22
    raw = raw + ctx.bytes('bootsig', 1) + b'\0' * 15 + ctx.bytes('t64', 8) + b'\0' * 420 + sig
    return raw, tk, fk


def h_open(ctx, bpss, spcs, fatss, jmps=(b'\0\0\0',), sigs=(b'\x55\xaa',), relaxed=(False,)):
    bps, spc, fats = ctx.choice('bps', bpss), ctx.choice('spc', spcs), ctx.choice('fats', fatss)
    jmp, sig = ctx.choice('jmp', list(jmps)), ctx.choice('sig', list(sigs))
    rel = ctx.choice('relaxed', list(relaxed))
    raw, tk, fk = bs(ctx, bps, spc, fats, sig, jmp)
    boot = rel or sig == b'\x55\xaa' or jmp[0] in (0xE9, 0xEB)
    s = spc or 256
    sector = bps in (512, 1024, 2048, 4096)
    base = ctx.And(boot, s in (1, 2, 4, 8, 16, 32, 64, 128, 256), u16(raw, 14) != 0, fats != 0)
    if tk == '64':
        t32 = ctx.If(u8(raw, 66) == 0x29, u64(raw, 82), 0)
        k16, k32, t16 = False, t32 != 0, 0
    else:
        t16 = t32 = u16(raw, 19) if tk == '16' else u32(raw, 32)
        k16 = k32 = True
    f16, f32 = u16(raw, 22), u32(raw, 36)
    is32 = ctx.And(base, k32, fk == '32', f32 != 0)
    rsvd = u16(raw, 14)
    root = (u16(raw, 17) * 32 + bps - 1) // max(bps, 1)
    n16 = (t16 - (rsvd + fats * f16 + root)) // s
    is16 = ctx.And(base, sector, ctx.Not(is32), k16, fk == '16', n16 >= 4085, n16 < 65525)
    is12 = ctx.And(base, sector, ctx.Not(is32), k16, fk == '16', n16 < 4085, n16 > 0)
    try:
        b = FAT.BSBPB(raw, rel)
    except FAT.BootSectorException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(ctx.Or(is32, is16, is12)), 'a FAT boot sector is refused')
        return
    except NotImplementedError:
        ctx.outcome('version')
        ctx.check(ctx.And(is32, u16(raw, 42) != 0), 'a supported version is refused')
        return
    ctx.check(ctx.Or(is32, is16, is12), 'not a FAT boot sector')
    if ctx.fork(is32):
        ctx.outcome('fat32')
        ctx.check(u16(raw, 42) == 0, 'an unsupported version is accepted')
        ctx.check(b.is_fat32 == True, 'FAT32')
        n = (t32 - (rsvd + fats * f32)) // s
        fl = u16(raw, 40)
        act = ctx.If(ctx.And((fl // 0x80) % 2 == 1, fl % 16 < fats), fl % 16, 0)
        try:
            got = b.fat_offset_and_size()
        except FAT.BootSectorException:
            ctx.outcome('sector size refused')
            ctx.check(not sector, 'a valid sector size is refused')
            return
        ctx.check(sector, 'an invalid sector size is accepted')
        ctx.check(ctx.And(got[0] == (rsvd + f32 * act) * bps, got[1] == f32 * bps, got[2] == n + 1), 'position of the active FAT')
    else:
        g16 = ctx.fork(n16 >= 4085)
        ctx.outcome('fat16' if g16 else 'fat12')
        ctx.check(b.is_fat32 == False, 'FAT12/16')
        ctx.check(not FAT.IsFileSystem32(b, True), 'FAT12/16 taken for FAT32')
        ctx.check(FAT.IsFileSystem16(b, True) == g16, 'FAT12 or FAT16')
        ctx.check(FAT.IsFileSystem12(b, True) == (not g16), 'FAT12 or FAT16')
        got = b.fat_offset_and_size()
        ctx.check(ctx.And(got[0] == rsvd * bps, got[1] == f16 * bps, got[2] == n16 + 1), 'position of the FAT')


def h_size(ctx):
    n = ctx.choice('n', [0, 1, 511, 513, 1024])
    try:
        FAT.BSBPB(b'\xeb' * n)
    except FAT.BootSectorException:
        ctx.outcome('refused')
        return
    ctx.fail('a boot sector of a wrong size is accepted')


def ok(ctx, fn):
    try:
        return fn(), True
    except FAT.BootSectorException:
        return None, False


def h_fields(ctx, f32):
    """The values of the other fields."""
    if f32:
        head = b'\xeb\0\0' + b'OEMOEMOE' + p16(512) + p8(1) + p16(1) + p8(2) + p16(0) + p16(0)
        raw = head + ctx.bytes('media', 1) + p16(0) + ctx.bytes('chs', 8) + p32(100000) + p32(100) + ctx.bytes('fl', 2) + p16(0) + ctx.bytes('rest', 46)
    else:
        head = b'\xeb\0\0' + b'OEMOEMOE' + p16(512) + p8(1) + p16(1) + p8(2) + p16(512) + p16(1000)
        raw = head + ctx.bytes('media', 1) + p16(9) + ctx.bytes('chs', 8) + p32(0) + ctx.bytes('rest', 54)
    raw = raw + b'\0' * (510 - len(raw)) + b'\x55\xaa'
    b = FAT.BSBPB(raw)
    media, good = ok(ctx, b.get_bpb_media)
    ctx.outcome('media' if good else 'bad media')
    valid = ctx.Or(u8(raw, 21) == 0xF0, u8(raw, 21) >= 0xF8)
    if good:
        ctx.check(ctx.And(valid, media == u8(raw, 21)), 'media type')
    else:
        ctx.check(ctx.Not(valid), 'a valid media type is refused')
    ctx.check(ctx.And(b.get_bpb_secpertrk() == u16(raw, 24), b.get_bpb_numheads() == u16(raw, 26), b.get_bpb_hiddsec() == u32(raw, 28)), 'geometry')
    o = 64 if f32 else 36
    ctx.check(b.get_bs_drvnum() == u8(raw, o), 'drive number')
    fl = u8(raw, o + 1)
    dirty, surface = b.is_volume_dirty()
    ctx.check(ctx.And(ctx.Implies(dirty, fl % 2 == 1), ctx.Implies(fl % 2 == 1, dirty)), 'dirty flag')
    ctx.check(ctx.And(ctx.Implies(surface, (fl // 2) % 2 == 1), ctx.Implies((fl // 2) % 2 == 1, surface)), 'surface flag')
    bsig = u8(raw, o + 2)
    vid, label, typ = b.get_bs_extfields()
    if ctx.fork(bsig == 0x29):
        ctx.check(ctx.And(vid == u32(raw, o + 3), label == raw[o + 7:o + 18], typ == raw[o + 18:o + 26]), 'extended fields')
    elif ctx.fork(bsig == 0x28):
        ctx.check(vid == u32(raw, o + 3), 'volume ID')
        ctx.check(label is None and typ is None, 'extended fields')
    else:
        ctx.check(vid is None and label is None and typ is None, 'extended fields that do not exist')
    if f32:
        root, good = ok(ctx, b.get_bpb_rootclus)
        if good:
            ctx.check(ctx.And(root == u32(raw, 44), root >= 2), 'root cluster')
        else:
            ctx.check(u32(raw, 44) < 2, 'a valid root cluster is refused')
        for fn, p in ((b.get_bpb_fsinfo, 48), (b.get_bpb_bkbootsec, 50)):
            v, good = ok(ctx, fn)
            if good:
                ctx.check(ctx.And(v == u16(raw, p), v != 0), 'sector number')
            else:
                ctx.check(u16(raw, p) == 0, 'a valid sector number is refused')


def h_fsinfo(ctx):
    raw = ctx.bytes('a', 4) + b'\0' * 480 + ctx.bytes('b', 28)
    good = ctx.And(u32(raw, 0) == 0x41615252, u32(raw, 484) == 0x61417272, u32(raw, 508) == 0xAA550000)
    try:
        f = FAT.FSINFO(raw)
    except FAT.FileSystemInfoException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(good), 'a valid information sector is refused')
        return
    ctx.outcome('accepted')
    ctx.check(good, 'an invalid information sector is accepted')
    ctx.check(ctx.And(f.get_fsi_free_count() == u32(raw, 488), f.get_fsi_nxt_free() == u32(raw, 492)), 'free clusters')


def h_unusual(ctx):
    n = ctx.int('clusters', 0, 1 << 40)
    got = FAT.IsFileSystemUnusual12Or16(n, True)
    want = ctx.fork(ctx.And(n >= 4079, n <= 4086))
    ctx.outcome('unusual' if want else 'usual')
    ctx.check(got == want, 'volumes that may be taken for FAT12 or FAT16')


CASES = [
    {'name': 'unusual', 'fn': h_unusual, 'cfg': {}, 'bounds': 'every number of clusters', 'expect': ['unusual', 'usual']},
    {'name': 'size', 'fn': h_size, 'cfg': {}, 'bounds': 'buffers of other sizes', 'expect': ['refused']},
    {'name': 'type', 'fn': h_open, 'cfg': {'bpss': [512, 4096], 'spcs': [1, 8], 'fatss': [1, 2]}, 'bounds': 'every other field', 'expect': ['fat12', 'fat16', 'fat32', 'refused', 'version']},
    {'name': 'cluster', 'fn': h_open, 'cfg': {'bpss': [512], 'spcs': [0, 2, 3, 64, 128, 255], 'fatss': [2]}, 'bounds': 'cluster sizes', 'expect': ['fat12', 'fat16', 'fat32', 'refused', 'version']},
    {'name': 'sector', 'fn': h_open, 'cfg': {'bpss': [0, 256, 513, 1024, 2048, 8192], 'spcs': [4], 'fatss': [1]}, 'bounds': 'sector sizes', 'expect': ['fat12', 'fat16', 'fat32', 'refused', 'version']},
    {'name': 'fats', 'fn': h_open, 'cfg': {'bpss': [512], 'spcs': [1], 'fatss': [0, 3, 16, 17, 255]}, 'bounds': 'numbers of FATs', 'expect': ['fat12', 'fat16', 'fat32', 'refused', 'version']},
    {'name': 'signature', 'fn': h_open, 'cfg': {'bpss': [512], 'spcs': [1], 'fatss': [2], 'jmps': (b'\0\0\0', b'\xeb\x3c\0', b'\xe9\0\0', b'\xe8\0\x90'), 'sigs': (b'\x55\xaa', b'\xaa\x55'), 'relaxed': (False, True)}, 'bounds': 'boot signatures', 'expect': ['fat12', 'fat16', 'fat32', 'refused', 'version']},
    {'name': 'fields_32', 'fn': h_fields, 'cfg': {'f32': True}, 'bounds': 'every other field', 'expect': ['media', 'bad media']},
    {'name': 'fields_16', 'fn': h_fields, 'cfg': {'f32': False}, 'bounds': 'every other field', 'expect': ['media', 'bad media']},
    {'name': 'fsinfo', 'fn': h_fsinfo, 'cfg': {}, 'bounds': 'every information sector', 'expect': ['refused', 'accepted']},
]
