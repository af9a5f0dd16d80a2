"""C23: MBR and EBR partitions."""
from dfir_ntfs import PartitionTable
from harness.util import *

FILES = ['dfir_ntfs/PartitionTable.py']
ASSUMPTIONS = ['Volumes of at most 8 sectors; an EBR at any of them or outside the volume.']
EXT = [0x05, 0x0F, 0x85]


def entry(ctx, raw, k):
    o = 446 + 16 * k
    return u8(raw, o), raw[o + 1:o + 4], u8(raw, o + 4), raw[o + 5:o + 8], u32(raw, o + 8), u32(raw, o + 12)


def h_mbr(ctx, sector):
    raw = ctx.bytes('mbr', 512)
    m = PartitionTable.MBR(ctx.file(raw + b'\0' * (2 * sector - 512)), sector)
    sig = u16(raw, 510) == 0xAA55
    try:
        s = m.read_mbr()
    except ValueError:
        ctx.outcome('no signature')
        ctx.check(ctx.Not(sig), 'an MBR with a boot signature is refused')
        return
    ctx.outcome('mbr')
    ctx.check(sig, 'an MBR without a boot signature is accepted')
    code = ctx.And(u8(raw, 0) != 0, u8(raw, 1) != 0)
    ctx.check(ctx.And(ctx.Implies(code, s.is_boot_code_present), ctx.Implies(s.is_boot_code_present, code)), 'boot code')
    ctx.check(s.disk_signature == u32(raw, 440), 'disk signature')
    got = m.read_mbr_partitions()
    n = 0
    for k in range(4):
        b, c1, t, c2, start, size = entry(ctx, raw, k)
        if ctx.fork(t == 0):
            continue
        ctx.check(n < len(got), 'a partition is missing')
        if n >= len(got):
            return
        p = got[n]
        n += 1
        ctx.check(ctx.And(p.boot_indicator == b, p.starting_chs == c1, p.os_type == t, p.ending_chs == c2, p.starting_lba == start, p.size_in_lba == size), 'partition fields')
    ctx.check(n == len(got), 'partitions that do not exist are reported')


def h_small(ctx):
    size = ctx.choice('size', [0, 1, 511, 512, 1023, 1024, 1025, 8191, 8192])
    sector = ctx.choice('sector', [0, 256, 511, 512, 513, 1000, 1024, 4096])
    ok = sector >= 512 and sector % 512 == 0 and size >= 2 * sector
    try:
        PartitionTable.MBR(ctx.file(b'\0' * size), sector)
    except ValueError:
        ctx.outcome('refused')
        ctx.check(not ok, 'a valid volume is refused')
        return
    ctx.outcome('accepted')
    ctx.check(ok, 'an invalid volume or sector size is accepted')


def h_ebr(ctx, sector, ext, starts, nexts, sectors, good_at=(2,)):
    """The chain of logical partitions of each extended partition."""
    types, first = [], []
    slots = []
    for k in range(4):
        if k in ext:
            t = ctx.choice('type%d' % k, ext[k])
            s = ctx.choice('start%d' % k, starts)
        else:
            t, s = 0x07, 5
        types.append(t)
        first.append(s)
        slots.append(ctx.bytes('boot%d' % k, 4) + p8(t) + ctx.bytes('chs%d' % k, 3) + p32(s) + ctx.bytes('size%d' % k, 4))
    mbr = b'\0' * 446 + slots[0] + slots[1] + slots[2] + slots[3] + p16(0xAA55)
    img = mbr + b'\0' * (sector - 512)
    ebr = {}
    for k in range(1, sectors):
        part = ctx.bytes('part%d' % k, 16)
        nxt = ctx.choice('next%d' % k, nexts) if k in (1, 2, 3) else ctx.choice('nextx', [0])
        good = ctx.bool('good%d' % k) if k in good_at else True
        g = ctx.fork(good)
        ebr[k] = (part, nxt, g)
        img = img + b'\0' * 446 + part + ctx.bytes('link%d' % k, 8) + p32(nxt) + ctx.bytes('linksize%d' % k, 4) + b'\0' * 32 + p16(0xAA55 if g else 0xAA54) + b'\0' * (sector - 512)
    m = PartitionTable.MBR(ctx.file(img), sector)
    got = m.read_ebr_partitions()
    n, seen = 0, set()
    for k in range(4):
        if types[k] not in EXT or first[k] == 0:
            continue
        cur = first[k]
        while cur not in seen:
            seen.add(cur)
            if cur == 0 or cur not in ebr or not ebr[cur][2]:
                if cur == 0:
                    ctx.outcome('to the mbr')
                break
            part, nxt, g = ebr[cur]
            if not ctx.fork(u8(part, 4) == 0):
                ctx.check(n < len(got), 'a logical partition is missing')
                if n >= len(got):
                    return
                p = got[n]
                n += 1
                ctx.check(ctx.And(p.boot_indicator == u8(part, 0), p.os_type == u8(part, 4), p.starting_lba == cur + u32(part, 8), p.size_in_lba == u32(part, 12)), 'fields of a logical partition')
            if nxt == 0:
                break
            cur = first[k] + nxt
    ctx.outcome('%d' % n)
    ctx.check(n == len(got), 'logical partitions that do not exist are reported')


CASES = [
    {'name': 'mbr', 'fn': h_mbr, 'cfg': {'sector': 512}, 'bounds': 'every MBR', 'expect': ['mbr', 'no signature']},
    {'name': 'mbr_4k', 'fn': h_mbr, 'cfg': {'sector': 4096}, 'bounds': 'every MBR, sectors of 4096 bytes', 'expect': ['mbr', 'no signature']},
    {'name': 'size', 'fn': h_small, 'cfg': {}, 'bounds': 'volume and sector sizes around the limits', 'expect': ['refused', 'accepted']},
    {'name': 'ebr', 'fn': h_ebr, 'cfg': {'sector': 512, 'ext': {1: [15]}, 'starts': [1, 2], 'nexts': [0, 1, 2, 0x1000], 'sectors': 4}, 'bounds': 'one extended partition, 3 EBRs, chains with loops and out of the volume', 'expect': ['0', '1', '2', '3']},
    {'name': 'ebr_type', 'fn': h_ebr, 'cfg': {'sector': 512, 'ext': {1: [5, 15, 0x85, 6, 0x15, 4, 0]}, 'starts': [1, 3, 0x7FFFFFFF, 0xFFFFFFFF], 'nexts': [0, 0xFFFFFFFF], 'sectors': 4, 'good_at': (1, 3)}, 'bounds': 'types of extended partitions, positions out of the volume', 'expect': ['0', '1']},
    {'name': 'ebr_4k', 'fn': h_ebr, 'cfg': {'sector': 4096, 'ext': {3: [15]}, 'starts': [1, 3], 'nexts': [0, 1, 2], 'sectors': 4}, 'bounds': 'one extended partition, sectors of 4096 bytes', 'expect': ['0', '1', '2', '3']},
    {'name': 'ebr_two', 'fn': h_ebr, 'cfg': {'sector': 512, 'ext': {0: [5], 2: [15, 7]}, 'starts': [0, 1, 2], 'nexts': [0, 1], 'sectors': 4}, 'bounds': 'two extended partitions, also at sector 0 and with chains that meet', 'expect': ['0', '1', '2', '3']},
]
