"""C31: FAT directory entries: fields, deletion marks, long names."""
from dfir_ntfs.addons import FAT
from harness.util import *

FILES = ['dfir_ntfs/addons/FAT.py']
ASSUMPTIONS = ['Directories of up to 5 entries that are not empty (20 for the longest names); long name entries have arbitrary order numbers, checksums and types, and one arbitrary character each (all characters in the case for the name itself).',
               'Short names, dates and times are decoded as decided by C30.']
FAT.WARN_FUNC = lambda *a: None
ENTRY = b'ABC     TXT'


def short(name=ENTRY, attr=0x20, rest=b'\0' * 20):
    return name + p8(attr) + rest


def long_entry(order, chars, checksum=0, etype=0, attr=0x0F):
    """chars: 26 bytes"""
    return p8(order) + chars[0:10] + p8(attr) + p8(etype) + p8(checksum) + chars[10:22] + b'\0\0' + chars[22:26]


def parse(ctx, img, fat32=True, short_only=False):
    img = img + b'\0' * (-len(img) % 512)
    return list(FAT.DirectoryEntries(img, fat32).entries('ascii', short_only))


def is_file(e):
    return type(e) is FAT.FileEntry


def h_size(ctx):
    n = ctx.choice('n', [0, 32, 511, 512, 513, 1024, 1056])
    try:
        FAT.DirectoryEntries(b'\0' * n)
    except FAT.DirectoryEntriesException:
        ctx.outcome('refused')
        ctx.check(n in (0, 32, 511, 513, 1056), 'a valid directory is refused')
        return
    ctx.outcome('accepted')
    ctx.check(n in (512, 1024), 'a directory of a wrong size is accepted')


# ---- fields of an entry ---------------------------------------------------------------------------

def h_fields(ctx, what, fat32):
    z = lambda n: b'\0' * n
    b = lambda k, name, n: ctx.bytes(name, n) if what == k else z(n)
    attr = ctx.int('attr', 0, 255) if what == 'attr' else 0x20
    nt = ctx.int('nt', 0, 255) if what == 'attr' else 0
    rest = p8(nt) + b('ctime', 'tenth', 1) + b('ctime', 'ct', 2) + b('ctime', 'cd', 2) + b('mtime', 'ad', 2) + b('attr', 'hi', 2) + b('mtime', 'mt', 2) + b('mtime', 'md', 2) + b('attr', 'lo', 2) + b('attr', 'size', 4)
    raw = short(b'AB1     TXT', attr, rest)
    got = parse(ctx, raw, fat32)
    if what == 'attr':
        a = attr % 64
        if ctx.fork(a == 15):
            ctx.outcome('long')
            ctx.check(len([e for e in got if is_file(e)]) == 0, 'a long name entry is a file')
            return
        if ctx.fork(ctx.And((a // 8) % 2 == 1, (a // 16) % 2 == 1)):
            ctx.outcome('invalid')
            ctx.check(len(got) == 0, 'an invalid entry is a file')
            return
    ctx.check(len(got) == 1 and is_file(got[0]), 'a file is missing')
    e = got[0]
    ctx.check(e.is_deleted == False, 'an allocated file is deleted')
    ctx.check(e.long_name is None, 'long name')
    if what == 'attr':
        d = ctx.fork((a // 16) % 2 == 1)
        label = ctx.fork((a // 8) % 2 == 1)
        ctx.outcome('directory' if d else 'label' if label else 'file')
        ctx.check(e.is_directory == d, 'directory flag')
        hi, lo = u16(raw, 20), u16(raw, 26)
        ctx.check(ctx.And(e.first_cluster == (hi * 65536 if fat32 else 0) + lo, e.size == u32(raw, 28), e.attributes == a, e.ntbyte == nt), 'fields of a file')
        ctx.check(e.is_encrypted == (nt % 2 == 1), 'encryption flag')
        base = 'ab1' if not label and ctx.fork((nt // 8) % 2 == 1) else 'AB1'
        ext = 'txt' if not label and ctx.fork((nt // 16) % 2 == 1) else 'TXT'
        ctx.check(e.short_name == ('AB1     TXT' if label else base + '.' + ext), 'short name')
        ctx.check(e.short_name_raw == (b'AB1     TXT' if label else b'AB1.TXT'), 'raw short name')
        ctx.check(e.atime is None and e.mtime is None and e.ctime is None, 'timestamps that do not exist')
        return
    if what == 'ctime':
        d, t, tenth = FAT.DecodeFATDate(u16(raw, 16)), FAT.DecodeFATTime(u16(raw, 14)), raw[13]
        if d is None or t is None:
            ctx.outcome('no time')
            ctx.check(e.ctime is None, 'creation time that does not exist')
            return
        ctx.outcome('time')
        ctx.check(e.ctime is not None, 'creation time is missing')
        ms = ctx.If(tenth > 199, 0, tenth * 10)
        want = FAT.datetime(d.year, d.month, d.day, t.hour, t.minute, t.second) + FAT.timedelta(milliseconds=ms)
        ctx.check(e.ctime == want, 'creation time')
        return
    d, t, a = FAT.DecodeFATDate(u16(raw, 24)), FAT.DecodeFATTime(u16(raw, 22)), FAT.DecodeFATDate(u16(raw, 18))
    if a is None:
        ctx.check(e.atime is None, 'access date that does not exist')
    else:
        ctx.check(e.atime is not None and ctx.And(e.atime.year == a.year, e.atime.month == a.month, e.atime.day == a.day), 'access date')
    if d is None or t is None:
        ctx.outcome('no time')
        ctx.check(e.mtime is None, 'modification time that does not exist')
        return
    ctx.outcome('time')
    ctx.check(e.mtime is not None and e.mtime == FAT.datetime(d.year, d.month, d.day, t.hour, t.minute, t.second), 'modification time')


def h_names(ctx, kind):
    """Short names and labels with arbitrary characters."""
    c = ctx.bytes('c', 3)
    name = c[0:1] + b'B' + c[1:2] + b'     ' + c[2:3] + b'  '
    attr = 0x08 if kind == 'label' else 0x20
    got = parse(ctx, short(name, attr, b'\0' * 19 + b'\1'))
    if kind == 'label':
        n0 = ctx.If(ctx.Or(c[0] == 0, c[0] == 0xE5), 0x5F, ctx.If(c[0] == 5, 0xE5, c[0]))
        good = ctx.And(*[ctx.And(v != 0, v != 10, v != 13) for v in (n0, c[1], c[2])])
        if not ctx.fork(good):
            ctx.outcome('invalid')
            ctx.check(len(got) == 0, 'an invalid label is reported')
            return
        ctx.outcome('valid')
        ctx.check(len(got) == 1, 'a label is missing')
        tail = 9 if ctx.fork(c[2] != 0x20) else 3 if ctx.fork(c[1] != 0x20) else 2
        want = ([n0, 0x42, c[1]] + [0x20] * 5 + [c[2]])[:tail]
        g = got[0].short_name_raw
        ctx.check(len(g) == len(want) and ctx.And(*[g[i] == want[i] for i in range(len(want))]), 'label')
        t = got[0].short_name
        ctx.check(len(t) == len(want) and ctx.And(*[ord(t[i]) == ctx.If(want[i] > 127, 0xFFFD, want[i]) for i in range(len(want))]), 'label')
    else:
        want = FAT.ParseShortName(name, 'ascii')
        wraw = FAT.ParseShortName(name, None)
        ctx.outcome('invalid' if want is None else 'valid')
        ctx.check(len(got) == (0 if want is None else 1), 'a file with an invalid name' if want is None else 'a file is missing')
        if want is not None:
            ctx.check(ctx.And(got[0].short_name == want, got[0].short_name_raw == wraw), 'short name')
    if len(got):
        dele = ctx.Or(c[0] == 0, c[0] == 0xE5)
        ctx.check((got[0].is_deleted == True) == dele, 'deletion mark')


def h_null(ctx, n):
    """Which entries are deleted, allocated or unknown."""
    marks = [ctx.int('m%d' % i, 0, 255) for i in range(n)]
    img = b''
    for m in marks:
        ctx.assume(ctx.Or(m == 0, m == 0xE5, m == 0x41))
        img = img + short(p8(m) + b'BC     TXT')
    got = parse(ctx, img)
    ctx.check(len(got) == n, 'number of files')
    null = False
    lab = ''
    for m, e in zip(marks, got):
        if ctx.fork(m == 0):
            null = True
        if ctx.fork(ctx.Or(m == 0, m == 0xE5)):
            ctx.check(e.is_deleted == True, 'a deleted file is not marked')
            lab += 'd'
        elif null:
            ctx.check(e.is_deleted is None, 'a file after the end mark has a known state')
            lab += 'u'
        else:
            ctx.check(e.is_deleted == False, 'an allocated file is not marked')
            lab += 'a'
    ctx.outcome(lab)


def h_pattern(ctx):
    """Entries filled with 0xE5 or 0x00 are no files."""
    fill = ctx.choice('fill', [0xE5, 0x00])
    pos = ctx.choice('pos', [1, 10, 12, 13, 20, 31])
    v = ctx.int('v', 0, 255)
    raw = bytes([fill]) * pos + p8(v) + bytes([fill]) * (31 - pos)
    got = parse(ctx, raw)
    empty = ctx.fork(v == fill)
    ctx.outcome('empty' if empty else 'other')
    if empty:
        ctx.check(len(got) == 0, 'an empty entry is reported')
    elif fill == 0xE5 and FAT.ValidateShortName(raw[:11]):
        ctx.check(len(got) == 1, 'a deleted file is missing')


# ---- long names -----------------------------------------------------------------------------------

def build(ctx, chunks):
    """The name of a set of long name entries (first entry on disk is the last part): list of code units up to a null character."""
    out = []
    for ch in reversed(chunks):
        for i in range(13):
            v = u16(ch, 2 * i)
            if ctx.fork(v == 0):
                return out
            out.append(v)
    return out


def same_name(ctx, got, units):
    if not units:
        return got is None
    if got is None:
        return False
    if len(got) != len(units):
        return False
    return ctx.And(*[ord(got[i]) == units[i] for i in range(len(units))])


DEL = (0x00, 0xE5)


class Set:
    """Long name entries collected so far."""

    def __init__(self):
        self.chunks, self.order, self.sum = [], None, None


def h_long(ctx, kinds, names, short_only=False, full=False):
    """kinds: a list of 'L' (long name entry), 'S' (short name entry), e.g. LLS.  The expected result is worked out entry by entry."""
    img, want = b'', []
    cur = Set()

    def flush():
        if cur.chunks:
            units = build(ctx, cur.chunks)
            if units:
                want.append(('orphan', units))
        cur.__init__()

    if full:  # the directory ends right after these entries
        for i in range(16 - len(kinds)):
            img = img + short(b'Z%02d     TXT' % i)
            want.append(('file', False, False, []))
    null = False
    for i, k in enumerate(kinds):
        if k == 'P':  # an entry filled with one byte
            fill = ctx.choice('fill%d' % i, [0x00, 0xE5])
            img = img + bytes([fill]) * 32
            if fill == 0:
                null = True
            if not short_only:
                flush()
        elif k in 'LMN':  # M: a long name entry whose attribute and type bytes are arbitrary is in another case
            order, csum = ctx.int('order%d' % i, 0, 255), ctx.int('sum%d' % i, 0, 255)
            chars = long_chars(ctx, i, names)
            etype = ctx.int('type%d' % i, 0, 1) if k == 'M' else ctx.int('type%d' % i, 1, 255) if k == 'N' else 0
            img = img + long_entry(order, chars, csum, etype)
            if ctx.fork(order == 0):
                null = True
            if short_only or k == 'N' or (k == 'M' and ctx.fork(etype != 0)):
                continue
            deleted = ctx.fork(ctx.Or(order == 0, order == 0xE5))
            starts = deleted or ctx.fork(ctx.And(order > 0x40, order <= 0x54))
            if cur.order is None:
                fits = starts
            elif deleted or cur.deleted:
                fits = deleted and cur.deleted and ctx.fork(csum == cur.sum)
            else:
                prev = ctx.If(cur.order >= 0x40, cur.order - 0x40, cur.order)
                fits = ctx.fork(ctx.And(csum == cur.sum, order >= 1, order <= 20, prev == order + 1))
            if not fits:
                flush()
            if fits or starts:
                cur.chunks.append(chars)
                cur.order, cur.sum, cur.deleted = order, csum, deleted
        else:
            first = ctx.choice('first%d' % i, [0x41, 0xE5, 0x61])  # allocated, deleted, an invalid name
            name = bytes([first]) + ENTRY[1:]
            img = img + short(name, rest=b'\0' * 19 + b'\1')
            long_name = []
            if cur.order is not None and not short_only:
                if first == 0xE5:
                    long_name = build(ctx, cur.chunks)
                    cur.__init__()
                else:
                    s = 0
                    for c in name:
                        s = ((s % 2) * 128 + s // 2 + c) % 256
                    if not cur.deleted and ctx.fork(ctx.And(cur.sum == s, ctx.Or(cur.order == 1, cur.order == 0x41))):
                        long_name = build(ctx, cur.chunks)
                        cur.__init__()
                    else:
                        flush()
            if first == 0x61:
                if long_name:
                    want.append(('orphan', long_name))
            else:
                want.append(('file', first == 0xE5, null, long_name))
    # the empty entries that follow are no files, an unfinished set is reported
    if cur.order is not None and not short_only:
        units = build(ctx, cur.chunks)
        if units:
            want.append(('orphan', units))
    got = parse(ctx, img, short_only=short_only)
    ctx.outcome('+'.join('orphan' if w[0] == 'orphan' else 'long' if w[3] else 'short' for w in want))
    ctx.check(len(got) == len(want), 'number of entries')
    for g, w in zip(got, want):
        if w[0] == 'orphan':
            ctx.check(not is_file(g), 'an orphan long name is missing')
            ctx.check(same_name(ctx, g.long_name_partial, w[1]), 'orphan long name')
        else:
            ctx.check(is_file(g), 'a file is missing')
            ctx.check(same_name(ctx, g.long_name, w[3]), 'long name')
            if w[1]:
                ctx.check(g.is_deleted == True, 'deletion mark')
            elif w[2]:
                ctx.check(g.is_deleted is None, 'deletion mark')
            else:
                ctx.check(g.is_deleted == False, 'deletion mark')


def long_chars(ctx, i, names):
    """The 13 characters of an entry: one of them is arbitrary (not a surrogate), where the name ends is a choice."""
    pat = ctx.choice('name%d' % i, names)
    c = ctx.bytes('char%d' % i, 2)
    ctx.assume(ctx.Or(c[1] < 0xD8, c[1] > 0xDF))
    base = [bytes([0x61 + (i * 13 + k) % 26, 0]) for k in range(13)]
    if pat == 'first':
        base[0] = c
    elif pat == 'middle':
        base[7] = c
    elif pat == 'last':
        base[12] = c
    elif pat == 'short':  # ends after 6 characters
        base[5] = c
        base[6:] = [b'\0\0'] + [b'\xff\xff'] * 6
    elif pat == 'empty':
        base = [b'\0\0'] + [b'\xff\xff'] * 12
    return b''.join(base)


def h_name(ctx, n):
    """Every name of n characters, also with unpaired surrogates."""
    raw = ctx.bytes('raw', n * 2)
    pad = [b'\0\0'] + [b'\xff\xff'] * 24
    full = raw + b''.join(pad)[:26 - n * 2]
    csum = FAT.BuildChecksum(ENTRY)
    got = parse(ctx, long_entry(0x41, full, csum) + short())
    units = []
    for i in range(n):
        v = u16(raw, 2 * i)
        if ctx.fork(v == 0):
            break
        units.append(v)
    out, i = [], 0
    while i < len(units):
        v = units[i]
        if ctx.fork(ctx.And(v >= 0xD800, v < 0xDC00)) and i + 1 < len(units) and ctx.fork(ctx.And(units[i + 1] >= 0xDC00, units[i + 1] < 0xE000)):
            out.append(0x10000 + (v - 0xD800) * 0x400 + (units[i + 1] - 0xDC00))
            i += 2
            continue
        if ctx.fork(ctx.And(v >= 0xD800, v < 0xE000)):
            out.append(0xFFFD)
        else:
            out.append(v)
        i += 1
    ctx.outcome('%d' % len(out))
    ctx.check(len(got) == 1 and is_file(got[0]), 'a file is missing')
    ctx.check(same_name(ctx, got[0].long_name, out), 'long name')


def h_max(ctx):
    """20 entries: at most 255 characters."""
    end = ctx.choice('end', [247, 248, 254, 255, 256, 259, 260])
    c = ctx.bytes('c', 2)
    ctx.assume(ctx.And(ctx.Or(c[1] < 0xD8, c[1] > 0xDF), ctx.Or(c[0] != 0, c[1] != 0)))
    pos = ctx.choice('pos', [0, 13, 246, 254])
    units = [bytes([0x61 + k % 26, 0]) for k in range(260)]
    units[pos] = c
    if end < 260:
        units[end] = b'\0\0'
        units[end + 1:] = [b'\xff\xff'] * (259 - end)
    csum = FAT.BuildChecksum(ENTRY)
    img = b''
    for k in range(19, -1, -1):
        img = img + long_entry(k + 1 + (0x40 if k == 19 else 0), b''.join(units[k * 13:k * 13 + 13]), csum)
    got = parse(ctx, img + short())
    ctx.outcome('long')
    ctx.check(len(got) == 1 and is_file(got[0]), 'a file is missing')
    n = min(end, 255)
    ctx.check(got[0].long_name is not None and len(got[0].long_name) == n, 'length of a long name')
    for k in (0, 12, 13, pos, 245, n - 1):
        if k < n:
            ctx.check(ord(got[0].long_name[k]) == u16(units[k], 0), 'character of a long name')


def h_many(ctx):
    """More entries of a deleted file than a name can have."""
    n = ctx.choice('n', [20, 21, 22])
    c, csum = ctx.bytes('c', 2), ctx.int('csum', 0, 255)
    ctx.assume(ctx.And(ctx.Or(c[1] < 0xD8, c[1] > 0xDF), ctx.Or(c[0] != 0, c[1] != 0)))
    units = [bytes([0x61 + k % 26, 0]) for k in range(n * 13)]
    units[14] = c
    img = b''
    for k in range(n - 1, -1, -1):
        img = img + long_entry(0xE5, b''.join(units[k * 13:k * 13 + 13]), csum)
    got = parse(ctx, img + short(b'\xe5' + ENTRY[1:]))
    ctx.outcome('long')
    ctx.check(len(got) == 1 and is_file(got[0]), 'entries of a deleted file')
    ctx.check(got[0].long_name is not None and len(got[0].long_name) == 255, 'length of a long name')
    for k in (0, 12, 13, 14, 254):
        ctx.check(ord(got[0].long_name[k]) == u16(units[k], 0), 'character of a long name')


def h_attr_long(ctx):
    """Which entries are long name entries."""
    attr, etype = ctx.int('attr', 0, 255), ctx.int('type', 0, 255)
    csum = FAT.BuildChecksum(ENTRY)
    chars = b''.join([bytes([0x41 + k, 0]) for k in range(13)])
    got = parse(ctx, long_entry(0x41, chars, csum, etype, attr) + short())
    files = [e for e in got if is_file(e) and e.short_name == 'ABC.TXT']
    ctx.check(len(files) == 1, 'a file is missing')
    if ctx.fork(ctx.And(attr % 64 == 15, etype == 0)):
        ctx.outcome('long')
        ctx.check(files[0].long_name is not None and files[0].long_name == 'ABCDEFGHIJKLM', 'long name')
    else:
        ctx.outcome('other')
        ctx.check(files[0].long_name is None, 'a long name that does not exist')


NAMES = ['first', 'last', 'short']
CASES = [
    {'name': 'size', 'fn': h_size, 'cfg': {}, 'bounds': 'directory sizes', 'expect': ['refused', 'accepted']},
    {'name': 'attr_32', 'fn': h_fields, 'cfg': {'what': 'attr', 'fat32': True}, 'bounds': 'every attribute, NT byte, cluster and size', 'expect': ['long', 'invalid', 'directory', 'label', 'file']},
    {'name': 'attr_16', 'fn': h_fields, 'cfg': {'what': 'attr', 'fat32': False}, 'bounds': 'every attribute, NT byte, cluster and size', 'expect': ['long', 'invalid', 'directory', 'label', 'file']},
    {'name': 'ctime', 'fn': h_fields, 'cfg': {'what': 'ctime', 'fat32': True}, 'bounds': 'every creation time', 'expect': ['time', 'no time']},
    {'name': 'mtime', 'fn': h_fields, 'cfg': {'what': 'mtime', 'fat32': True}, 'bounds': 'every modification time and access date', 'expect': ['time', 'no time']},
    {'name': 'names', 'fn': h_names, 'cfg': {'kind': 'file'}, 'bounds': 'three arbitrary characters', 'expect': ['valid', 'invalid']},
    {'name': 'label', 'fn': h_names, 'cfg': {'kind': 'label'}, 'bounds': 'three arbitrary characters', 'expect': ['valid', 'invalid']},
    {'name': 'null', 'fn': h_null, 'cfg': {'n': 4}, 'bounds': '4 entries: allocated, deleted or empty mark', 'expect': ['aaaa', 'dddd', 'aadd']},
    {'name': 'pattern', 'fn': h_pattern, 'cfg': {}, 'bounds': 'entries filled with one byte but for one', 'expect': ['empty', 'other']},
    {'name': 'long_LS', 'fn': h_long, 'cfg': {'kinds': 'LS', 'names': ['first', 'middle', 'last', 'short', 'empty']}, 'bounds': 'every order, checksum', 'expect': ['long', 'short', 'orphan+short', 'orphan']},
    {'name': 'long_MS', 'fn': h_long, 'cfg': {'kinds': 'MS', 'names': ['short']}, 'bounds': 'every order, checksum, two entry types', 'expect': ['long', 'short', 'orphan+short']},
    {'name': 'long_LLS', 'fn': h_long, 'cfg': {'kinds': 'LLS', 'names': ['last', 'short']}, 'bounds': 'every order, checksum', 'expect': ['long', 'short', 'orphan+short', 'orphan+long', 'orphan+orphan']},
    {'name': 'long_LSLS', 'fn': h_long, 'cfg': {'kinds': 'LSLS', 'names': ['short']}, 'bounds': 'every order, checksum', 'expect': ['long+long', 'short+short', 'long+orphan']},
    {'name': 'long_SL', 'fn': h_long, 'cfg': {'kinds': 'SL', 'names': ['short', 'empty']}, 'bounds': 'every order, checksum', 'expect': ['short', 'short+orphan', 'orphan']},
    {'name': 'long_only', 'fn': h_long, 'cfg': {'kinds': 'LSL', 'names': ['short'], 'short_only': True}, 'bounds': 'long names are not asked for', 'expect': ['short']},
    {'name': 'long_LMLS', 'fn': h_long, 'cfg': {'kinds': 'LMLS', 'names': ['short']}, 'bounds': 'every order, checksum', 'expect': ['long', 'short'], 'tier': 'thorough'},
    {'name': 'long_LLLS', 'fn': h_long, 'cfg': {'kinds': 'LLLS', 'names': ['last']}, 'bounds': 'every order, checksum', 'expect': ['long', 'short'], 'tier': 'thorough'},
    {'name': 'name', 'fn': h_name, 'cfg': {'n': 3}, 'bounds': 'every name of up to 3 UTF-16 characters', 'expect': ['0', '1', '2', '3']},
    {'name': 'max', 'fn': h_max, 'cfg': {}, 'bounds': '20 entries, names of 247 to 260 characters', 'expect': ['long']},
    {'name': 'many', 'fn': h_many, 'cfg': {}, 'bounds': '20 to 22 entries of a deleted file', 'expect': ['long']},
    {'name': 'long_LP', 'fn': h_long, 'cfg': {'kinds': 'LP', 'names': ['short', 'empty']}, 'bounds': 'a long name before an unused entry', 'expect': ['orphan']},
    {'name': 'long_LNS', 'fn': h_long, 'cfg': {'kinds': 'LNS', 'names': ['short']}, 'bounds': 'an entry of an unknown type between a long and a short name', 'expect': ['long', 'short', 'orphan+short']},
    {'name': 'long_full', 'fn': h_long, 'cfg': {'kinds': 'SL', 'names': ['short', 'empty'], 'full': True}, 'bounds': 'a long name at the end of a directory', 'expect': ['+'.join(['short'] * 15), '+'.join(['short'] * 15 + ['orphan'])]},
    {'name': 'attr_long', 'fn': h_attr_long, 'cfg': {}, 'bounds': 'every attribute and entry type', 'expect': ['long', 'other']},
]
