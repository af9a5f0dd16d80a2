"""C24: GPT headers (primary and backups) and partitions."""
import binascii
import uuid
from dfir_ntfs import PartitionTable
from harness.util import *

FILES = ['dfir_ntfs/PartitionTable.py']
ASSUMPTIONS = ['A volume of 68 sectors of 512 bytes (or 12 of 4096); partition arrays of up to 3 entries; positions of structures are chosen from a list that has valid and invalid ones.']
SEC = 512
N = 68
ALT = 60


def header(ctx, my, alt, first, last, guid, elba, num, esize, ecrc, sig=b'EFI PART', rev=0x10000, hsize=92, valid=True, other=0, sec=SEC):
    def make(crc):
        h = sig + p32(rev) + p32(hsize) + p32(crc) + p32(0) + p64(my) + p64(alt) + p64(first) + p64(last) + guid + p64(elba) + p32(num) + p32(esize) + p32(ecrc)
        return h + b'\0' * (sec - len(h))
    n = hsize if 92 <= hsize <= sec else 92
    good = binascii.crc32(make(0)[:n]) & 0xFFFFFFFF
    ctx.assume(other != good)
    return make(ctx.If(valid, good, other))


def volume(ctx, at, sec=SEC, n=N):
    """A volume with the given content at the given sectors."""
    out, pos = b'', 0
    for lba in sorted(at):
        out = out + b'\0' * (lba * sec - pos) + at[lba]
        pos = lba * sec + len(at[lba])
    return ctx.file(out + b'\0' * (n * sec - pos))


def same_guid(ctx, got, raw):
    return got == uuid.UUID(bytes_le=raw)


def h_header(ctx, elbas, nums, sizes, hsizes, alts, sec=SEC, n=N):
    """Every field of the primary header; there is no backup."""
    raw_entries = ctx.bytes('entries', 256)
    elba, num, esize, hsize = ctx.choice('elba', elbas), ctx.choice('num', nums), ctx.choice('esize', sizes), ctx.choice('hsize', hsizes)
    alt = ctx.choice('alt', alts)
    sig = ctx.choice('sig', [b'EFI PART', b'EFI PARS'])
    rev, first, last = ctx.int('rev', 0, 0xFFFFFFFF), ctx.int('first', 0, (1 << 64) - 1), ctx.int('last', 0, (1 << 64) - 1)
    my = ctx.int('my', 0, (1 << 64) - 1)
    guid = ctx.bytes('guid', 16)
    hv, ev = ctx.bool('hv'), ctx.bool('ev')
    other, eother = ctx.int('other', 0, 0xFFFFFFFF), ctx.int('eother', 0, 0xFFFFFFFF)
    cnt = num * esize
    fits = 1 < elba and elba * sec + cnt <= n * sec and cnt <= 4 * 1024 and elba * sec < n * sec - sec
    if fits:
        arr = raw_entries[:cnt] if cnt <= 256 else raw_entries + b'\0' * (cnt - 256)
    else:
        arr = raw_entries
    # what lies at the array's place
    at = {}
    if fits:
        at[elba] = arr
    good = binascii.crc32(arr) & 0xFFFFFFFF if cnt or not fits else 0
    ctx.assume(eother != good)
    h = header(ctx, my, alt, first, last, guid, elba, num, esize, ctx.If(ev, good, eother), sig, rev, hsize, hv, other, sec)
    at[1] = h
    g = PartitionTable.GPT(volume(ctx, at, sec, n), sec)
    ok = ctx.And(sig == b'EFI PART', rev != 0, hsize >= 92, hsize <= sec, hv, my == 1, alt != 0, alt != 1, first >= (2 * sec + 16384) // sec, 1 < elba, elba * sec < n * sec - sec, esize >= 128, esize % 128 == 0, fits, ev)
    try:
        got = g.read_gpt_header()
    except ValueError:
        ctx.outcome('refused')
        ctx.check(ctx.Not(ok), 'a valid header is refused')
        return
    ctx.outcome('accepted')
    ctx.check(ok, 'an invalid header is accepted')
    ctx.check(ctx.And(got.location == 0, got.first_usable_lba == first, got.last_usable_lba == last, got.partition_entry_lba == elba, got.number_of_partition_entries == num,
                      got.size_of_partition_entry == esize, got.partition_entry_crc32 == good), 'fields of the header')
    ctx.check(same_guid(ctx, got.disk_guid, guid), 'disk GUID')


def h_backup(ctx, alt, states):
    """The first intact header is used: primary, recorded alternate, last sector."""
    arr = ctx.bytes('arr', 128)
    acrc = binascii.crc32(arr) & 0xFFFFFFFF
    at = {2: arr}
    hs = {}
    st = {}
    for where, lba, al in (('primary', 1, alt), ('alternate', ALT, 1), ('last', N - 1, 1)):
        guid = ctx.bytes('guid_' + where, 16)
        last = ctx.int('last_' + where, 0, (1 << 64) - 1)
        state = ctx.choice('state_' + where, states)
        st[where] = state
        my = lba + 1 if state == 'lba' else lba
        h = header(ctx, my, 0 if state == 'alt' else al, 33 if state == 'first' else 40, last, guid, 1 if state == 'elba' else 2, 1, 64 if state == 'esize' else 128,
                   rev=0 if state == 'rev' else 0x10000, hsize=91 if state == 'hsize' else 92, ecrc=ctx.If(state == 'array', (acrc + 1) & 0xFFFFFFFF, acrc), valid=state != 'crc', other=ctx.int('x_' + where, 0, 0xFFFFFFFF))
        if state == 'signature':
            h = b'XXX PART' + h[8:]
        at[lba] = h
        hs[where] = (guid, last)
    g = PartitionTable.GPT(volume(ctx, at), SEC)
    order = ['primary']
    if st['primary'] not in ('signature', 'alt') and alt == ALT:
        order.append('alternate')
    order.append('last')
    use = [w for w in order if st[w] == 'ok']
    for attempt in range(2):
        try:
            got = g.read_gpt_header()
        except ValueError:
            ctx.outcome('refused')
            ctx.check(not use, 'an intact header is not used')
            continue
        ctx.check(bool(use), 'a damaged header is used')
        if not use:
            return
        ctx.outcome(use[0])
        guid, last = hs[use[0]]
        ctx.check(ctx.And(got.last_usable_lba == last, same_guid(ctx, got.disk_guid, guid)), 'not the expected header')
        if attempt == 0:
            ctx.check(got.location == {'primary': 0, 'alternate': 2, 'last': 1}[use[0]], 'location')


def h_huge(ctx):
    """Headers with a valid checksum whose partition array cannot exist."""
    num = ctx.choice('num', [0xFFFFFFFF, 0x80000000, 0x100])
    esize = ctx.choice('esize', [0xFFFFFF80, 0x80000000, 0x20000])
    where = ctx.choice('where', ['primary', 'last'])
    alt = ctx.choice('alt', [5, 1 << 54, (1 << 64) - 1])
    h = header(ctx, 1 if where == 'primary' else N - 1, alt, 40, 60, ctx.bytes('guid', 16), 2, num, esize, 0, other=1)
    g = PartitionTable.GPT(volume(ctx, {1 if where == 'primary' else N - 1: h}), SEC)
    try:
        g.read_gpt_header()
    except ValueError:
        ctx.outcome('refused')
        return
    ctx.fail('a header with an impossible partition array is accepted')


def h_parts(ctx, num, esize, pats, elba=2, only=None):
    arr, names, parts = b'', [], []
    for k in range(num):
        if only is not None and k not in only:
            arr = arr + b'\0' * esize
            continue
        e = ctx.bytes('entry%d' % k, 56)
        pat = ctx.choice('name%d' % k, pats)
        c = ctx.int('unit%d' % k, 1, 0xFFFF)
        ctx.assume(ctx.Or(c < 0xD800, c > 0xDFFF))
        u = p16(c)
        raw, want = {
            'empty': (b'\0' * 72, []),
            'one': (u + b'\0' * 70, [c]),
            'cut': (b'A\0' + u + b'\0\0' + b'B\0' * 33, [0x41, c]),
            'full': (b'A\0' * 35 + u, [0x41] * 35 + [c]),
            'lone': (u + b'\0\xd8' + b'\0' * 68, None),
            'lone_end': (b'A\0' * 35 + b'\0\xdc', None),
        }[pat]
        e = e + raw
        arr = arr + e + ctx.bytes('pad%d' % k, 4) * ((esize - 128) // 4)
        parts.append((e, want))
    crc = binascii.crc32(arr) & 0xFFFFFFFF
    ok = ctx.bool('ok')
    g = PartitionTable.GPT(volume(ctx, {elba: arr}), SEC)
    other = ctx.int('other', 0, 0xFFFFFFFF)
    ctx.assume(other != crc)
    try:
        got = g.read_gpt_partitions(elba, num, esize, ctx.If(ok, crc, other))
    except ValueError:
        ctx.outcome('refused')
        ctx.check(ctx.Not(ok), 'a valid partition array is refused')
        return
    if num:
        ctx.check(ok, 'a damaged partition array is accepted')
    n = 0
    for e, want in parts:
        if ctx.fork(e[0:16] == b'\0' * 16):
            continue
        ctx.check(n < len(got), 'a partition is missing')
        if n >= len(got):
            return
        p = got[n]
        n += 1
        ctx.check(ctx.And(same_guid(ctx, p.partition_type_guid, e[0:16]), same_guid(ctx, p.unique_partition_guid, e[16:32])), 'GUIDs')
        ctx.check(ctx.And(p.starting_lba == u64(e, 32), p.ending_lba == u64(e, 40), p.attributes == u64(e, 48)), 'fields of a partition')
        if want is None:
            ctx.check(p.partition_name == '', 'an invalid name')
        else:
            raw = b''
            for x in want:
                raw = raw + p16(x)
            ctx.check(p.partition_name.encode('utf-16le') == raw, 'name')
    ctx.outcome('%d' % n)
    ctx.check(n == len(got), 'partitions that do not exist are reported')


def h_small(ctx):
    sector = ctx.choice('sector', [0, 511, 512, 513, 1024, 4096])
    size = ctx.choice('size', [0, 34303, 34304, 35840, 35839, 45055, 45056])
    ok = sector >= 512 and sector % 512 == 0 and size >= 3 * sector + 32768
    try:
        PartitionTable.GPT(ctx.file(b'\0' * size), sector)
    except ValueError:
        ctx.outcome('refused')
        ctx.check(not ok, 'a valid volume is refused')
        return
    ctx.outcome('accepted')
    ctx.check(ok, 'an invalid volume or sector size is accepted')


CASES = [
    {'name': 'header', 'fn': h_header, 'cfg': {'elbas': [2], 'nums': [1, 2], 'sizes': [128], 'hsizes': [92, 512], 'alts': [67]}, 'bounds': 'every value of the fields of the primary header', 'expect': ['accepted', 'refused']},
    {'name': 'header_size', 'fn': h_header, 'cfg': {'elbas': [2], 'nums': [1], 'sizes': [128], 'hsizes': [0, 91, 92, 93, 511, 512, 513, 1 << 31], 'alts': [67]}, 'bounds': 'header sizes around the limits', 'expect': ['accepted', 'refused']},
    {'name': 'header_array', 'fn': h_header, 'cfg': {'elbas': [0, 1, 2, 65, 66, 67, 68, 1 << 55, (1 << 64) - 1], 'nums': [0, 1, 4], 'sizes': [128, 256], 'hsizes': [92], 'alts': [67]}, 'bounds': 'positions and sizes of the partition array around the limits', 'expect': ['accepted', 'refused']},
    {'name': 'header_entry', 'fn': h_header, 'cfg': {'elbas': [2], 'nums': [2], 'sizes': [0, 64, 127, 128, 129, 192, 256, 384], 'hsizes': [92], 'alts': [0, 1, 60, 67]}, 'bounds': 'entry sizes and alternate positions around the limits', 'expect': ['accepted', 'refused']},
    {'name': 'header_4k', 'fn': h_header, 'cfg': {'elbas': [1, 2, 10, 11], 'nums': [1], 'sizes': [128], 'hsizes': [92, 4096, 4097], 'alts': [11], 'sec': 4096, 'n': 12}, 'bounds': 'sectors of 4096 bytes', 'expect': ['accepted', 'refused']},
    {'name': 'backup', 'fn': h_backup, 'cfg': {'alt': ALT, 'states': ['ok', 'signature', 'crc', 'array', 'lba']}, 'bounds': 'every combination of states of the three headers', 'expect': ['primary', 'alternate', 'last', 'refused']},
    {'name': 'backup_far', 'fn': h_backup, 'cfg': {'alt': 1 << 60, 'states': ['ok', 'signature', 'crc', 'lba']}, 'bounds': 'an alternate position that cannot be reached', 'expect': ['primary', 'last', 'refused']},
    {'name': 'backup_fields', 'fn': h_backup, 'cfg': {'alt': ALT, 'states': ['ok', 'rev', 'hsize', 'first']}, 'bounds': 'headers with invalid fields and a valid checksum', 'expect': ['primary', 'alternate', 'last', 'refused']},
    {'name': 'backup_fields2', 'fn': h_backup, 'cfg': {'alt': ALT, 'states': ['ok', 'esize', 'elba', 'alt']}, 'bounds': 'headers with invalid fields and a valid checksum', 'expect': ['primary', 'alternate', 'last', 'refused']},
    {'name': 'parts_far', 'fn': h_parts, 'cfg': {'num': 130, 'esize': 128, 'pats': ['one'], 'only': [5, 127, 129]}, 'bounds': 'arbitrary entries 5, 127 and 129 of 130', 'expect': ['0', '1', '2', '3', 'refused']},
    {'name': 'huge', 'fn': h_huge, 'cfg': {}, 'bounds': 'partition arrays that cannot be read', 'expect': ['refused']},
    {'name': 'parts_0', 'fn': h_parts, 'cfg': {'num': 0, 'esize': 128, 'pats': ['empty']}, 'bounds': 'no entries', 'expect': ['0']},
    {'name': 'parts_1', 'fn': h_parts, 'cfg': {'num': 1, 'esize': 128, 'pats': ['empty', 'one', 'cut', 'full', 'lone', 'lone_end']}, 'bounds': 'every entry, names of 6 shapes with an arbitrary character', 'expect': ['0', '1', 'refused']},
    {'name': 'parts_3', 'fn': h_parts, 'cfg': {'num': 3, 'esize': 128, 'pats': ['one']}, 'bounds': 'three arbitrary entries', 'expect': ['0', '1', '2', '3', 'refused']},
    {'name': 'parts_big', 'fn': h_parts, 'cfg': {'num': 2, 'esize': 384, 'pats': ['cut'], 'elba': 66}, 'bounds': 'two arbitrary entries of 384 bytes', 'expect': ['0', '1', '2', 'refused']},
    {'name': 'size', 'fn': h_small, 'cfg': {}, 'bounds': 'volume and sector sizes around the limits', 'expect': ['refused', 'accepted']},
]
