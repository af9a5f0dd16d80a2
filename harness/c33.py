"""C33: the boot region of an exFAT volume."""
import uuid
from dfir_ntfs.addons import exFAT
from harness.util import *

FILES = ['dfir_ntfs/addons/exFAT.py']
ASSUMPTIONS = ['Fields: the checksum of the boot region is a free value here (the checksum itself is decided for regions with arbitrary bytes in chosen places).', 'Sizes of sectors and clusters are chosen from a list that has valid and invalid ones.']


def checksum(img, bps):
    s = 0
    for i in range(11 * bps):
        if i not in (106, 107, 112):
            s = ((s % 2) * 0x80000000 + s // 2 + img[i]) % (1 << 32)
    return s


def sector0(ctx, sshift, cshift, fats, sym=True, name=b'EXFAT   ', zero=b'\0' * 53, sig=b'\x55\xaa', jmp=b'\xeb\x76\x90'):
    """The main boot sector; sym: the fields are arbitrary."""
    if sym:
        f = ctx.bytes('fields', 44)
    else:
        f = p64(0) + p64(4096) + p32(24) + p32(64) + p32(160) + p32(3000) + p32(4) + p32(0x12345678) + p16(0x100) + p16(0)
        f = f[:44]
    return jmp + name + zero + f[0:44] + p8(sshift) + p8(cshift) + p8(fats) + p8(0x80) + ctx.bytes('percent', 1) + b'\0' * 7 + b'\0' * 390 + sig


class FreeSum(exFAT.BR):
    """The checksum is a free value."""
    value = None

    def calculate_checksum(self):
        return FreeSum.value


def fields(ctx, raw):
    return {'partition': u64(raw, 64), 'volume': u64(raw, 72), 'fatoff': u32(raw, 80), 'fatlen': u32(raw, 84), 'heap': u32(raw, 88), 'count': u32(raw, 92), 'root': u32(raw, 96), 'serial': u32(raw, 100), 'minor': raw[104], 'major': raw[105], 'flags': u16(raw, 106)}


def h_fields(ctx, sshifts, cshifts, fatss, copies=('same',)):
    ss, cs, fats = ctx.choice('sshift', sshifts), ctx.choice('cshift', cshifts), ctx.choice('fats', fatss)
    bps = 1 << ss if 9 <= ss <= 12 else 512
    spc = 1 << cs
    raw = sector0(ctx, ss, cs, fats)
    stored = ctx.int('stored', 0, 0xFFFFFFFF)
    copies = ctx.choice('copies', copies)
    c1, c2, c3 = p32(stored), p32(stored), p32(stored)
    if copies == 'second':
        c2 = p32(ctx.int('stored2', 0, 0xFFFFFFFF))
    if copies == 'third':
        c3 = p32(ctx.int('stored3', 0, 0xFFFFFFFF))
    img = raw + b'\0' * (11 * bps - 512) + c1 + c2 + c3 + b'\0' * (bps - 12)
    FreeSum.value = ctx.int('sum', 0, 0xFFFFFFFF)
    f = fields(ctx, raw)
    bad = [not 9 <= ss <= 12, u32(c2, 0) != stored, u32(c3, 0) != stored, stored != FreeSum.value, f['volume'] * bps < 1 << 20,
           f['fatoff'] < 24, f['fatoff'] > f['heap'] - f['fatlen'] * fats, cs > 25 - ss, f['fatlen'] * bps < (f['count'] + 2) * 4,
           f['heap'] > f['count'] * spc, f['count'] > 0xFFFFFFF5, f['count'] * spc > f['volume'] - f['heap'],
           f['root'] < 2, f['root'] > f['count'] + 1, ctx.Or(f['major'] < 1, f['major'] > 99, f['minor'] > 99),
           fats not in (1, 2), ctx.And(f['flags'] % 2 == 1, fats != 2)]
    valid = True
    for c in bad:
        if ctx.fork(c):
            valid = False
            break
    try:
        b = FreeSum(img)
    except exFAT.BootRegionException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(valid), 'a valid boot region is refused')
        return
    except NotImplementedError:
        ctx.outcome('version')
        ctx.check(f['major'] != 1, 'a supported version is refused')
        return
    ctx.outcome('accepted')
    ctx.check(ctx.And(valid, f['major'] == 1), 'an invalid boot region is accepted')
    ctx.check(ctx.And(b.get_partitionoffset() == f['partition'], b.get_volumelength() == f['volume'], b.get_fatoffset() == f['fatoff'], b.get_fatlength() == f['fatlen']), 'fields of a boot sector')
    ctx.check(ctx.And(b.get_clusterheapoffset() == f['heap'], b.get_clustercount() == f['count'], b.get_firstclusterofrootdirectory() == f['root'], b.get_volumeserialnumber() == f['serial']), 'fields of a boot sector')
    v = b.get_filesystemrevision()
    ctx.check(ctx.And(v[0] == f['major'], v[1] == f['minor'], b.get_bytespersector() == bps, b.get_sectorspercluster() == spc, b.get_numberoffats() == fats), 'fields of a boot sector')
    fl = b.get_volumeflags()
    for k in range(4):
        want = (f['flags'] // (1 << k)) % 2 == 1
        ctx.check(ctx.And(ctx.Implies(fl[k], want), ctx.Implies(want, fl[k])), 'volume flags')
    pc = b.get_percentinuse()
    if pc is None:
        ctx.check(raw[112] > 100, 'percentage in use is missing')
    else:
        ctx.check(ctx.And(pc == raw[112], raw[112] <= 100), 'percentage in use')


def whole(ctx, bps, sector, extra):
    """A valid boot region, extra: [(offset, bytes)]."""
    img = sector + b'\0' * (11 * bps - 512)
    for o, b in extra:
        img = img[:o] + b + img[o + len(b):]
    return img


def close(img, bps, s):
    return img + p32(s) * (bps // 4)


def h_checksum(ctx, sshift, places, flip):
    """Arbitrary bytes in the given places: the region is accepted exactly when its checksum is right."""
    ctx.merge()
    bps = 1 << sshift
    pat = bytes([(i * 7 + i // 256 * 13) % 251 for i in range(64)])
    extra = [(bps * k + 100, pat) for k in range(1, 11)] + [(o, ctx.bytes('x%d' % o, n)) for o, n in places]
    img = whole(ctx, bps, sector0(ctx, sshift, 0, 1, False), extra)
    s = checksum(img, bps)
    if flip == 'value':
        v = ctx.int('value', 0, 0xFFFFFFFF)
        img2, ok = close(img, bps, v), v == s
    else:
        img2, ok = close(img, bps, s), True
    try:
        b = exFAT.BR(img2)
    except exFAT.BootRegionException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(ok), 'a valid boot region is refused')
        return
    ctx.outcome('accepted')
    ctx.check(ok, 'a boot region with a wrong checksum is accepted')


def h_flags(ctx):
    """The volume flags and the percentage in use are not part of the checksum."""
    bps = 512
    base = sector0(ctx, 9, 0, 2, False)
    s = checksum(whole(ctx, bps, base[:112] + b'\0' + base[113:], []), bps)
    sector = base[:106] + ctx.bytes('flags', 2) + base[108:]
    b = exFAT.BR(close(whole(ctx, bps, sector, []), bps, s))
    ctx.outcome('accepted')
    ctx.check(b.get_volumeflags()[1] == ((sector[106] // 2) % 2 == 1), 'volume flags')


def h_signature(ctx):
    which = ctx.choice('which', ['name', 'zero', 'sig', 'jmp'])
    pos = ctx.choice('pos', [0, 1, 2, 7, 30, 52])
    ref = {'name': b'EXFAT   ', 'zero': b'\0' * 53, 'sig': b'\x55\xaa', 'jmp': b'\xeb\x76\x90'}[which]
    ctx.assume(pos < len(ref))
    v = ctx.int('v', 0, 255)
    val = ref[:pos] + p8(v) + ref[pos + 1:]
    FreeSum.value = 7
    img = close(whole(ctx, 512, sector0(ctx, 9, 0, 1, False, **{which: val}), []), 512, 7)
    ok = ctx.Or(which == 'jmp', v == ref[pos])
    try:
        b = FreeSum(img)
    except exFAT.BootRegionException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(ok), 'a valid boot sector is refused')
        return
    ctx.outcome('accepted')
    ctx.check(ok, 'an invalid boot sector is accepted')
    if which == 'jmp':
        try:
            b.validate(False)
        except exFAT.BootRegionException:
            ctx.check(v != ref[pos], 'a valid jump code is refused')
            return
        ctx.check(v == ref[pos], 'an invalid jump code is accepted')


def h_size(ctx):
    """Truncated regions."""
    ss = ctx.choice('sshift', [9, 10, 12])
    n = ctx.choice('n', [0, 512, 11 * 512, 12 * 512 - 1, 12 * 512, 12 * 512 + 100, 13 * 512, 12 * 1024 - 512, 12 * 1024, 11 * 4096, 12 * 4096 - 512, 12 * 4096])
    bps = 1 << ss
    img = whole(ctx, bps, sector0(ctx, ss, 0, 1, False), [])
    img = img[:112] + b'\0' + img[113:]
    img = close(img, bps, checksum(img, bps))
    img = img[:n] + b'\0' * (n - len(img))
    try:
        exFAT.BR(img)
    except exFAT.BootRegionException:
        ctx.outcome('refused')
        ctx.check(not (n % 512 == 0 and n >= 12 * bps), 'a valid boot region is refused')
        return
    ctx.outcome('accepted')
    ctx.check(n % 512 == 0 and n >= 12 * bps, 'a truncated boot region is accepted')


FLASH = uuid.UUID('{0A0C7E46-3399-4021-90C8-FA6D389C4BA2}')


def h_oem(ctx):
    FreeSum.value = 7
    ss = ctx.choice('sshift', [9, 12])
    bps = 1 << ss
    kind = ctx.choice('kind', ['flash', 'any'])
    guid = FLASH.bytes_le if kind == 'flash' else ctx.bytes('guid', 16)
    par = ctx.bytes('par', 28)
    sigs = [ctx.bytes('sig%d' % k, 4) for k in (1, 8)]
    img = close(whole(ctx, bps, sector0(ctx, ss, 0, 1, False), [(10 * bps, guid + par), (bps + 508, sigs[0]), (8 * bps + 508, sigs[1])]), bps, 7)
    b = FreeSum(img)
    g = b.get_oem_guid()
    ctx.check(g.bytes_le == guid, 'OEM GUID')
    got = b.get_oem_flash_parameters()
    if ctx.fork(guid == FLASH.bytes_le):
        ctx.outcome('flash')
        ctx.check(ctx.And(*[got[k] is not None and got[k] == u32(par, 4 * k) for k in range(7)]), 'flash parameters')
    else:
        ctx.outcome('other')
        ctx.check(all(x is None for x in got) and len(got) == 7, 'flash parameters that do not exist')
    ctx.check(ctx.And(b.get_ebs_signature(1) == sigs[0], b.get_ebs_signature(8) == sigs[1]), 'signature of an extended boot sector')


CASES = [
    {'name': 'fields', 'fn': h_fields, 'cfg': {'sshifts': [9, 12], 'cshifts': [3], 'fatss': [1, 2], 'copies': ['same', 'second', 'third']}, 'bounds': 'every value of the fields', 'expect': ['accepted', 'refused', 'version']},
    {'name': 'shifts', 'fn': h_fields, 'cfg': {'sshifts': [8, 9, 11, 12, 13], 'cshifts': [1, 13, 14, 16, 17], 'fatss': [1]}, 'bounds': 'sizes of sectors and clusters', 'expect': ['accepted', 'refused', 'version']},
    {'name': 'fats', 'fn': h_fields, 'cfg': {'sshifts': [9], 'cshifts': [0], 'fatss': [0, 1, 2, 3]}, 'bounds': 'numbers of FATs', 'expect': ['accepted', 'refused', 'version']},
    {'name': 'flags', 'fn': h_flags, 'cfg': {}, 'bounds': 'every value of the flags', 'expect': ['accepted']},
    {'name': 'signature', 'fn': h_signature, 'cfg': {}, 'bounds': 'one arbitrary byte in the fixed fields', 'expect': ['accepted', 'refused']},
    {'name': 'size', 'fn': h_size, 'cfg': {}, 'bounds': 'truncated regions', 'expect': ['accepted', 'refused']},
    {'name': 'oem', 'fn': h_oem, 'cfg': {}, 'bounds': 'every OEM GUID and parameters', 'expect': ['flash', 'other']},
    {'name': 'sum_end', 'fn': h_checksum, 'cfg': {'sshift': 9, 'places': [(11 * 512 - 8, 8)], 'flip': 'value'}, 'bounds': 'the last 8 bytes and the checksum are arbitrary', 'expect': ['accepted', 'refused']},
    {'name': 'sum_mid', 'fn': h_checksum, 'cfg': {'sshift': 9, 'places': [(11 * 512 - 520, 2), (11 * 512 - 40, 2)], 'flip': 'value'}, 'bounds': 'bytes of the tenth and eleventh sector and the checksum are arbitrary', 'expect': ['accepted', 'refused']},
    {'name': 'sum_4k', 'fn': h_checksum, 'cfg': {'sshift': 12, 'places': [(11 * 4096 - 8, 8)], 'flip': 'value'}, 'bounds': 'the last 8 bytes and the checksum are arbitrary', 'expect': ['accepted', 'refused']},
]
