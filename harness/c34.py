"""C34: names, timestamps and directory entries of an exFAT volume."""
from dfir_ntfs.addons import exFAT
from harness.util import *

FILES = ['dfir_ntfs/addons/exFAT.py']
ASSUMPTIONS = ['Directories of up to 5 entries that are not empty (19 for the longest names), the types of all entries are arbitrary; names have up to 3 arbitrary characters.',
               'Entry sets: the checksum of a set is decided for 32 and 96 arbitrary bytes; where a case needs a set with a right checksum, it is taken from the code.']
BAD = [0x22, 0x2A, 0x2F, 0x3A, 0x3C, 0x3E, 0x3F, 0x5C, 0x7C]


def parse(img, root=False):
    img = img + b'\0' * (-len(img) % 512)
    return list(exFAT.DirectoryEntries(img, root).entries())


def same(ctx, a, b):
    return ctx.And(ctx.Implies(a, b), ctx.Implies(b, a))


# ---- values ---------------------------------------------------------------------------------------

def h_sum(ctx, n):
    ctx.merge()
    raw = ctx.bytes('raw', n)
    s = 0
    for i in range(n):
        if i not in (2, 3):
            s = ((s % 2) * 0x8000 + s // 2 + raw[i]) % 65536
    ctx.outcome('checksum')
    ctx.check(exFAT.EntrySetChecksum(raw) == s, 'checksum of an entry set')


def h_time(ctx):
    v, ms = ctx.int('v', 0, 0xFFFFFFFF), ctx.int('ms', 0, 255)
    t, d = v % 65536, v // 65536
    s, m, h = (t % 32) * 2, (t // 32) % 64, t // 2048
    day, month, year = d % 32, (d // 32) % 16, 1980 + d // 512
    leap = ctx.And(year % 4 == 0, year != 2100)
    last = ctx.If(month == 2, ctx.If(leap, 29, 28), ctx.If(ctx.Or(month == 4, month == 6, month == 9, month == 11), 30, 31))
    good = ctx.And(s < 60, m < 60, h < 24, day >= 1, month >= 1, month <= 12, day <= last)
    got = exFAT.DecodeFATTimestamp(v, ms)
    if got is None:
        ctx.outcome('invalid')
        ctx.check(ctx.Not(good), 'a valid timestamp is refused')
        return
    ctx.outcome('timestamp')
    ctx.check(good, 'an invalid timestamp is accepted')
    want = exFAT.datetime(year, month, day, h, m, s) + exFAT.timedelta(milliseconds=ctx.If(ms > 199, 0, ms * 10))
    ctx.check(got == want, 'timestamp')


def h_zone(ctx):
    v = ctx.int('v', 0, 255)
    got = exFAT.DecodeFATTimezone(v)
    if ctx.fork(v < 128):
        ctx.outcome('none')
        ctx.check(got is None, 'a time zone that is not given')
        return
    ctx.outcome('zone')
    ctx.check(got is not None and got == ctx.If(v >= 0xC0, v - 256, v - 128), 'time zone')


def h_attrs(ctx):
    v = ctx.int('v', 0, 0xFFFF)
    parts = exFAT.ResolveFileAttributes(v).split(' | ')
    n = 0
    for k, t in ((1, 'READ_ONLY'), (2, 'HIDDEN'), (4, 'SYSTEM'), (8, 'UNKNOWN8_MACOS'), (16, 'DIRECTORY'), (32, 'ARCHIVE')):
        b = ctx.fork((v // k) % 2 == 1)
        n += b
        ctx.check((t in parts) == b, 'attribute ' + t)
    ctx.outcome('%d' % n)


def decode(ctx, units):
    """UTF-16 code units to code points (unpaired surrogates become U+FFFD)."""
    out, i = [], 0
    while i < len(units):
        v = units[i]
        if isinstance(v, int) and not 0xD800 <= v < 0xE000:
            out.append(v)
        elif ctx.fork(ctx.And(v >= 0xD800, v < 0xE000)):
            if i + 1 < len(units) and ctx.fork(v < 0xDC00) and ctx.fork(ctx.And(units[i + 1] >= 0xDC00, units[i + 1] < 0xE000)):
                out.append(0x10000 + (v - 0xD800) * 0x400 + (units[i + 1] - 0xDC00))
                i += 1
            else:
                out.append(0xFFFD)
        else:
            out.append(v)
        i += 1
    return out


def name_of(ctx, units, limit, dots=True):
    """The expected name: a list of code points (None: invalid)."""
    cut = []
    for v in units:
        if ctx.fork(v == 0):
            break
        cut.append(v)
    out = decode(ctx, cut)
    if limit is not None:
        out = out[:limit]
    if not out:
        return None
    if ctx.fork(ctx.Or(*[ctx.Or(v < 0x20, *[v == b for b in BAD]) for v in out])):
        return None
    if dots and len(out) <= 2 and ctx.fork(ctx.And(*[v == 0x2E for v in out])):
        return None
    return out


def same_name(ctx, got, want):
    if want is None or got is None:
        return want is None and got is None
    return len(got) == len(want) and ctx.And(*[ord(got[i]) == want[i] for i in range(len(want))])


def h_name(ctx, n, lengths, surrogates):
    raw = ctx.bytes('raw', n * 2)
    units = [u16(raw, 2 * i) for i in range(n)]
    if not surrogates:
        ctx.assume(ctx.And(*[ctx.Or(u < 0xD800, u >= 0xE000) for u in units]))
    tail = ctx.choice('tail', [b'\0' * (30 - 2 * n), (b'\0\0' + b'/\0' * 15)[:30 - 2 * n]])
    limit = ctx.choice('length', lengths)
    want = name_of(ctx, units, limit)
    ctx.outcome('none' if want is None else '%d' % len(want))
    ctx.check(same_name(ctx, exFAT.BuildName([raw + tail], limit), want), 'name')
    if limit is not None:
        want = name_of(ctx, units[:limit], limit, False)
        ctx.check(same_name(ctx, exFAT.BuildLabel(raw[:2 * limit], limit), want), 'label')


# ---- entries --------------------------------------------------------------------------------------

def primary(count, attr=b'\x20\0', flags=b'\0\0', times=b'\0' * 12, ms=b'\0\0', zones=b'\0\0\0', typ=b'\x85', checksum=b'\0\0'):
    return typ + p8(count) + checksum + attr + flags + times + ms + zones + b'\0' * 7


def stream(flags=1, length=3, hash=b'\0\0', valid=b'\0' * 8, first=b'\0' * 4, size=b'\0' * 8, typ=b'\xc0', pad=b'\0', efs=b'\0\0'):
    return typ + p8(flags) + pad + p8(length) + hash + efs + valid + b'\0' * 4 + first + size


def name_entry(units, typ=b'\xc1', flags=0):
    raw = b''.join([p16(u) for u in units])
    return typ + p8(flags) + raw + b'\0' * (30 - len(raw))


def seal(img, count):
    """The first set of a directory with its checksum."""
    n = 32 + 32 * count
    s = exFAT.EntrySetChecksum((img + b'\0' * n)[:n])
    return img[:2] + p16(s) + img[4:]


ABC = [0x61, 0x62, 0x63]


def h_fields(ctx, what, deleted):
    ctx.merge()
    b = lambda k, name, n: ctx.bytes(name, n) if what == k else b'\0' * n
    d = 0x80 if not deleted else 0
    sflags = ctx.int('sflags', 0, 255) if what == 'stream' else 1
    img = primary(2, b('main', 'attr', 2), b('main', 'dflags', 2), b('times', 'times', 12), b('times', 'ms', 2), b('times', 'zones', 3), p8(5 + d))
    img = img + stream(sflags, 3, b('stream', 'hash', 2), b('stream', 'valid', 8), b('stream', 'first', 4), b('stream', 'size', 8), p8(0x40 + d), b('stream', 'pad', 1), b('stream', 'efs', 2)) + name_entry(ABC, p8(0x41 + d))
    if not deleted:
        img = seal(img, 2)
    got = parse(img)
    if ctx.fork(sflags % 2 == 0):
        ctx.outcome('invalid')
        ctx.check(not any(type(e) is exFAT.FileEntry for e in got), 'a file whose data can not be allocated')
        return
    ctx.outcome('file')
    ctx.check(len(got) == 1 and type(got[0]) is exFAT.FileEntry, 'a file is missing')
    e = got[0]
    ctx.check(e.name == 'abc', 'name')
    ctx.check(e.is_deleted == deleted, 'deletion mark')
    attr = u16(img, 4)
    ctx.check(ctx.And(e.attributes == attr, same(ctx, e.is_directory, (attr // 16) % 2 == 1), same(ctx, e.is_encrypted, img[7] >= 128)), 'attributes')
    ctx.check(ctx.And(e.size == u64(img, 56), e.valid_data_length == u64(img, 40), e.first_cluster == u32(img, 52)), 'fields of a stream')
    ctx.check(same(ctx, e.no_fat_chain, (sflags // 2) % 2 == 1), 'flag of a chain')
    if what == 'times':
        for g, w in ((e.ctime, exFAT.DecodeFATTimestamp(u32(img, 8), img[20])), (e.mtime, exFAT.DecodeFATTimestamp(u32(img, 12), img[21])), (e.atime, exFAT.DecodeFATTimestamp(u32(img, 16)))):
            ctx.check((g is None) == (w is None), 'timestamp')
            if w is not None:
                ctx.check(g == w, 'timestamp')
        for g, v in ((e.ctz, img[22]), (e.mtz, img[23]), (e.atz, img[24])):
            if ctx.fork(v < 128):
                ctx.check(g is None, 'a time zone that is not given')
            else:
                ctx.check(g is not None and g == ctx.If(v >= 0xC0, v - 256, v - 128), 'time zone')


def h_times(ctx, which):
    """One timestamp and its time zone are arbitrary."""
    ctx.merge()
    k = {'c': 0, 'm': 1, 'a': 2}[which]
    t, z, ms = ctx.bytes('t', 4), ctx.bytes('z', 1), ctx.bytes('ms', 1)
    times, zones, mss = b'\0' * 4 * k + t + b'\0' * (8 - 4 * k), b'\0' * k + z + b'\0' * (2 - k), (ms + b'\0' if k == 0 else b'\0' + ms)
    img = primary(2, times=times, ms=mss, zones=zones, typ=b'\x05') + stream(typ=b'\x40') + name_entry(ABC, b'\x41')
    got = parse(img)
    ctx.check(len(got) == 1, 'a file is missing')
    e = got[0]
    ts, zs = [e.ctime, e.mtime, e.atime], [e.ctz, e.mtz, e.atz]
    w = exFAT.DecodeFATTimestamp(u32(t, 0), ms[0] if k < 2 else 0)
    ctx.outcome('none' if w is None else 'time')
    ctx.check((ts[k] is None) == (w is None), 'timestamp')
    if w is not None:
        ctx.check(ts[k] == w, 'timestamp')
    if ctx.fork(z[0] < 128):
        ctx.check(zs[k] is None, 'a time zone that is not given')
    else:
        ctx.check(zs[k] is not None and zs[k] == ctx.If(z[0] >= 0xC0, z[0] - 256, z[0] - 128), 'time zone')
    ctx.check(all(x is None for i, x in enumerate(ts) if i != k) and all(x is None for i, x in enumerate(zs) if i != k), 'timestamps that are not given')


def h_checksum(ctx, deleted):
    """A set in use is reported exactly when its checksum is right."""
    ctx.merge()
    d = 0x80 if not deleted else 0
    img = primary(2, attr=ctx.bytes('attr', 2), typ=p8(5 + d)) + stream(hash=ctx.bytes('hash', 2), typ=p8(0x40 + d), size=ctx.bytes('size', 8)) + name_entry(ABC, p8(0x41 + d))
    s = 0
    for i in range(96):
        if i not in (2, 3):
            s = ((s % 2) * 0x8000 + s // 2 + img[i]) % 65536
    stored = ctx.int('stored', 0, 65535)
    got = parse(img[:2] + p16(stored) + img[4:])
    files = [e for e in got if type(e) is exFAT.FileEntry]
    ok = deleted or ctx.fork(stored == s)
    ctx.outcome('valid' if ok else 'invalid')
    ctx.check(len(files) == (1 if ok else 0), 'a file is missing' if ok else 'a set with a wrong checksum is reported')


class Ent:
    def __init__(self, typ, body):
        self.typ, self.body, self.sealed = typ, body, False

    def raw(self):
        return p8(self.typ) + self.body


class Walker:
    """The expected entries of a directory."""

    def __init__(self, ctx, ents, total, root):
        self.ctx, self.root, self.out, self.labels, self.bitmaps = ctx, root, [], 0, 0
        self.ents = ents + [Ent(0, b'\0' * 31)] * (total - len(ents))

    def raw(self):
        return b''.join([e.raw() for e in self.ents])

    def is_set(self, p):
        """The number of secondary entries and the name of a valid set."""
        ctx, e = self.ctx, self.ents[p]
        n = e.body[0]
        if not 2 <= n <= 64 or p + 1 + n > len(self.ents):
            return None
        used = ctx.fork(e.typ >= 128)
        part = self.ents[p:p + 1 + n]
        if used and not e.sealed:
            raw = b''.join([x.raw() for x in part])
            if not ctx.fork(u16(raw, 2) == exFAT.EntrySetChecksum(raw)):
                return None
        units, names, vendor, length = [], 0, False, None
        for k in range(1, n + 1):
            t = part[k].typ
            if ctx.fork(ctx.Or(t == 0, t == 0x80)) or not ctx.fork((t // 64) % 2 == 1):
                return None
            if used and not ctx.fork(t >= 128):
                return None
            st, nm = ctx.fork(t % 128 == 0x40), ctx.fork(t % 128 == 0x41)
            if (k == 1) != st or (k == 2 and not nm):
                return None
            if st:
                length = part[k].body[2]
                if part[k].body[0] % 2 == 0 or length == 0:
                    return None
            if nm:
                names += 1
                if names > (length + 14) // 15 or names > 17 or vendor:
                    return None
                units += [u16(part[k].body, 1 + 2 * i) for i in range(15)]
            elif ctx.fork(ctx.Or(t % 128 == 0x60, t % 128 == 0x61)):
                vendor = True
            elif vendor:
                return None
        name = name_of(ctx, units, length)
        return None if name is None else (n, not used, name)

    def orphan(self, p):
        """A file name outside of a set."""
        ctx, out, k = self.ctx, [], 0
        while p + k < len(self.ents) and k < 17:
            e = self.ents[p + k]
            if k and not ctx.fork(e.typ == self.ents[p].typ):
                break
            if ctx.fork(e.body[0] != 0):
                break
            u = [u16(e.body, 1 + 2 * i) for i in range(15)]
            out += u
            k += 1
            if ctx.fork(u[14] == 0):
                break
        name = name_of(ctx, out, None) if k else None
        return None if name is None else (k, name)

    def run(self):
        ctx, p = self.ctx, 0
        while p < len(self.ents):
            e = self.ents[p]
            if ctx.fork(e.typ == 0):
                return self.out
            if ctx.fork(e.typ == 0x80):
                return 'bad' if self.root else self.out
            if ctx.fork((e.typ // 64) % 2 == 0):
                used = ctx.fork(e.typ >= 128)
                if ctx.fork(e.typ % 128 == 5):
                    s = self.is_set(p)
                    if s is not None:
                        self.out.append(('file', s[1], s[2]))
                        p += s[0]
                elif used and not self.root and ctx.fork(ctx.Or(e.typ == 0x81, e.typ == 0x82, e.typ == 0x83)):
                    return self.out
                elif used and self.root and ctx.fork(e.typ == 0x83):
                    self.labels += 1
                    n = e.body[0]
                    if self.labels > 1 or n > 15:
                        return 'bad'
                    if n:
                        lab = name_of(ctx, [u16(e.body, 1 + 2 * i) for i in range(n)], None, False)
                        if lab is None:
                            return 'bad'
                        self.out.append(('label', lab))
                elif used and self.root and ctx.fork(e.typ == 0x81):
                    self.bitmaps += 1
                    if self.bitmaps > 2:
                        return 'bad'
                    self.out.append(('bitmap', e.body[0] % 2, u32(e.body, 19), u64(e.body, 23)))
            elif ctx.fork(e.typ % 128 == 0x41):
                o = self.orphan(p)
                if o is not None:
                    self.out.append(('orphan', o[1]))
                    p += o[0] - 1
            p += 1
        return self.out


def compare(ctx, walker, root):
    want = walker.run()
    try:
        got = parse(walker.raw(), root)
    except exFAT.DirectoryEntriesException:
        ctx.outcome('refused')
        ctx.check(want == 'bad', 'a valid directory is refused')
        return
    ctx.check(want != 'bad', 'an invalid directory is accepted')
    ctx.outcome('+'.join(w[0] for w in want) or 'empty')
    ctx.check(len(got) == len(want), 'number of entries')
    for g, w in zip(got, want):
        if w[0] == 'file':
            ctx.check(type(g) is exFAT.FileEntry, 'a file is missing')
            ctx.check(g.is_deleted == w[1], 'deletion mark')
            ctx.check(same_name(ctx, g.name, w[2]), 'name of a file')
        elif w[0] == 'orphan':
            ctx.check(type(g) is exFAT.OrphanEntry, 'an orphan name is missing')
            ctx.check(same_name(ctx, g.name_partial, w[1]), 'orphan name')
        elif w[0] == 'label':
            ctx.check(type(g) is exFAT.VolumeLabelEntry, 'a label is missing')
            ctx.check(same_name(ctx, g.volume_label, w[1]), 'label')
        else:
            ctx.check(type(g) is exFAT.AllocationBitmapEntry, 'a bitmap is missing')
            ctx.check(ctx.And(g.bitmap_id == w[1], g.first_cluster == w[2], g.size == w[3]), 'bitmap')


def body(ctx, i, kind, counts, lengths):
    """The entry without its type, as concrete as the case allows."""
    if kind == 'F':
        return primary(ctx.choice('count%d' % i, counts))[1:]
    if kind == 'S':
        return stream(1, ctx.choice('length%d' % i, lengths))[1:]
    if kind == 'N':  # 15 characters
        return name_entry([0x61 + (i + k) % 26 for k in range(15)])[1:]
    if kind == 'n':  # 3 characters
        return name_entry([0x61 + (i + k) % 26 for k in range(3)])[1:]
    if kind == 'f':  # unusual flags
        return name_entry([0x61 + (i + k) % 26 for k in range(3)], flags=7)[1:]
    if kind == 'x':  # also valid as a stream extension
        return name_entry([0x0361 + (i + k) % 8 for k in range(3)], flags=1)[1:]
    if kind == '0':
        return b'\0' * 31


def types(ctx, i, allow):
    return ctx.int('type%d' % i, 0, 255) if allow is None else ctx.choice('type%d' % i, allow)


def h_seq(ctx, kinds, counts=(2,), lengths=(3,), allow=None, root=False, good=True, total=16):
    """The types of all entries are arbitrary (where allow does not list them)."""
    ctx.merge()
    allow = allow or {}
    ents = [Ent(allow[i][0] if len(allow.get(i, ())) == 1 else types(ctx, i, allow.get(i)), body(ctx, i, k, counts, lengths)) for i, k in enumerate(kinds)]
    w = Walker(ctx, ents, total, root)
    for i, k in enumerate(kinds):
        if k == 'F' and good and 2 <= ents[i].body[0] and i + 1 + ents[i].body[0] <= total:
            raw = b''.join([x.raw() for x in w.ents[i:i + 1 + ents[i].body[0]]])
            ents[i].body = ents[i].body[:1] + p16(exFAT.EntrySetChecksum(raw)) + ents[i].body[3:]
            ents[i].sealed = True
    compare(ctx, w, root)


def h_long(ctx, names, length, vendor=0):
    """Sets with many name entries (and extensions of vendors)."""
    ctx.merge()
    used = ctx.choice('used', [0, 0x80])
    c = ctx.int('c', 0x2D, 0x30) if not used else 0x2D
    pos = ctx.choice('pos', [0, 15, 15 * names - 1])
    units = [0x61 + k % 26 for k in range(15 * names)]
    units[pos] = c
    ents = [Ent(5 + used, primary(names + 1 + vendor)[1:]), Ent(0x40 + used, stream(1, length)[1:])]
    ents += [Ent(0x41 + used, name_entry(units[15 * k:15 * k + 15])[1:]) for k in range(names)]
    ents += [Ent(0x60 + k % 2 + used, name_entry(units[:15])[1:]) for k in range(vendor)]
    w = Walker(ctx, ents, 80 if vendor else 32, False)
    if used:
        raw = b''.join([x.raw() for x in ents])
        ents[0].body = ents[0].body[:1] + p16(exFAT.EntrySetChecksum(raw)) + ents[0].body[3:]
    compare(ctx, w, False)


def h_label(ctx):
    n = ctx.choice('n', [0, 1, 2, 3, 15, 16, 255])
    raw = ctx.bytes('raw', 2)
    ctx.assume(raw[1] < 0xD8)
    raw = ctx.choice('place', [raw + b'b\0c\0', b'b\0' + raw + b'c\0', b'b\0c\0' + raw])
    ents = [Ent(types(ctx, 0, [3, 0x83]), p8(n) + raw + b'a\0' * 12), Ent(0x83, p8(1) + b'a\0' + b'\0' * 28) if ctx.choice('two', [False, True]) else Ent(0, b'\0' * 31)]
    compare(ctx, Walker(ctx, ents, 16, True), True)


def h_bitmap(ctx):
    ents = [Ent(types(ctx, i, [1, 0x81]), ctx.bytes('b%d' % i, 1) + b'\0' * 18 + ctx.bytes('v%d' % i, 12)) for i in range(3)]
    compare(ctx, Walker(ctx, ents, 16, True), True)


def h_orphan(ctx, n, root):
    """Names outside of a set: arbitrary types, flags and last characters."""
    allow = [0x41, 0xC1, 0x60]
    ents = []
    for i in range(n):
        last = ctx.choice('last%d' % i, ['full', 'end', 'bad', 'dots', 'wide'])
        units = [0x61 + i] * 15
        if last == 'end':
            units[3:] = [0] * 12
        if last == 'bad':
            units[14] = ctx.int('c%d' % i, 0x2E, 0x30)
        if last == 'wide':   # two zero bytes that are not one character
            units[7] = 0x3000
        if last == 'dots':
            units = [0x2E, 0x2E] + [0] * 13
        ents.append(Ent(types(ctx, i, allow), name_entry(units, flags=ctx.choice('flags%d' % i, [0, 1]))[1:]))
    compare(ctx, Walker(ctx, ents, 16, root), root)


def h_end(ctx):
    """Names and sets at the end of a directory."""
    kind = ctx.choice('kind', ['names', 'set', 'cut'])
    used = ctx.choice('used', [0, 0x80])
    fill = [Ent(0x21, b'\0' * 31)] * 12
    nm = lambda k: Ent(0x41 + used, name_entry([0x61 + k] * 15)[1:])
    if kind == 'names':
        ents = [Ent(0x21, b'\0' * 31)] * 13 + [nm(0), nm(1), nm(2)]
    else:
        ents = fill + [Ent(5 + used, primary(4 if kind == 'cut' else 3)[1:]), Ent(0x40 + used, stream(1, ctx.choice('length', [1, 30, 31]))[1:]), nm(0), nm(1)]
        if used and kind == 'set':
            raw = b''.join([x.raw() for x in ents[12:]])
            ents[12].body = ents[12].body[:1] + p16(exFAT.EntrySetChecksum(raw)) + ents[12].body[3:]
    compare(ctx, Walker(ctx, ents, 16, False), False)


def h_size(ctx):
    n = ctx.choice('n', [0, 32, 511, 512, 513, 1024, 1056])
    try:
        exFAT.DirectoryEntries(b'\0' * n)
    except exFAT.DirectoryEntriesException:
        ctx.outcome('refused')
        ctx.check(n not in (512, 1024), 'a valid directory is refused')
        return
    ctx.outcome('accepted')
    ctx.check(n in (512, 1024), 'a directory of a wrong size is accepted')


def h_path(ctx):
    parent = ctx.choice('parent', ['', '/', '/a', '/a/', '<Orphan directory 5>'])
    kind = ctx.choice('kind', ['file', 'orphan', 'label'])
    full = parent + ('' if parent.endswith('/') else '/') + 'name'
    if kind == 'file':
        v = [ctx.int('v%d' % i, 0, 1 << 40) for i in range(15)]
        v[2] = 'name'
        e = exFAT.ExpandPath(parent, exFAT.FileEntry(*v))
        ctx.check(type(e) is exFAT.FileEntry and e.name == full, 'path')
        ctx.check(ctx.And(*[e[i] == v[i] for i in range(15) if i != 2]), 'fields of an entry')
    elif kind == 'orphan':
        e = exFAT.ExpandPath(parent, exFAT.OrphanEntry('name'))
        ctx.check(type(e) is exFAT.OrphanEntry and e.name_partial == full, 'path')
    else:
        e = exFAT.ExpandPath(parent, exFAT.VolumeLabelEntry('name'))
        ctx.check(e == exFAT.VolumeLabelEntry('name'), 'label')
    ctx.outcome(kind)


F, S, N = [5, 0x85], [0x40, 0xC0], [0x41, 0xC1]
CASES = [
    {'name': 'sum32', 'fn': h_sum, 'cfg': {'n': 32}, 'bounds': 'every set of 32 bytes', 'expect': ['checksum']},
    {'name': 'sum96', 'fn': h_sum, 'cfg': {'n': 96}, 'bounds': 'every set of 96 bytes', 'expect': ['checksum']},
    {'name': 'timestamp', 'fn': h_time, 'cfg': {}, 'bounds': 'every timestamp', 'expect': ['timestamp', 'invalid']},
    {'name': 'zone', 'fn': h_zone, 'cfg': {}, 'bounds': 'every time zone', 'expect': ['zone', 'none']},
    {'name': 'attributes', 'fn': h_attrs, 'cfg': {}, 'bounds': 'every set of attributes', 'expect': ['0', '6']},
    {'name': 'name', 'fn': h_name, 'cfg': {'n': 2, 'lengths': [None, 1, 2], 'surrogates': True}, 'bounds': 'every name of up to 2 characters', 'expect': ['none', '1', '2']},
    {'name': 'name3', 'fn': h_name, 'cfg': {'n': 3, 'lengths': [None, 1, 2, 3], 'surrogates': False}, 'bounds': 'every name of up to 3 characters', 'expect': ['none', '1', '2', '3'], 'tier': 'thorough'},
    {'name': 'size', 'fn': h_size, 'cfg': {}, 'bounds': 'sizes of directories', 'expect': ['refused', 'accepted']},
    {'name': 'path', 'fn': h_path, 'cfg': {}, 'bounds': 'paths', 'expect': ['file', 'orphan', 'label']},
    {'name': 'main', 'fn': h_fields, 'cfg': {'what': 'main', 'deleted': False}, 'bounds': 'every attribute and flag', 'expect': ['file']},
    {'name': 'stream', 'fn': h_fields, 'cfg': {'what': 'stream', 'deleted': False}, 'bounds': 'every stream', 'expect': ['file', 'invalid']},
    {'name': 'stream_deleted', 'fn': h_fields, 'cfg': {'what': 'stream', 'deleted': True}, 'bounds': 'every stream', 'expect': ['file', 'invalid']},
    {'name': 'ctime', 'fn': h_times, 'cfg': {'which': 'c'}, 'bounds': 'every creation time and its zone', 'expect': ['time', 'none']},
    {'name': 'mtime', 'fn': h_times, 'cfg': {'which': 'm'}, 'bounds': 'every modification time and its zone', 'expect': ['time', 'none']},
    {'name': 'atime', 'fn': h_times, 'cfg': {'which': 'a'}, 'bounds': 'every access time and its zone', 'expect': ['time', 'none']},
    {'name': 'checksum', 'fn': h_checksum, 'cfg': {'deleted': False}, 'bounds': 'every checksum, 12 arbitrary bytes', 'expect': ['valid', 'invalid']},
    {'name': 'checksum_deleted', 'fn': h_checksum, 'cfg': {'deleted': True}, 'bounds': 'every checksum, 12 arbitrary bytes', 'expect': ['valid']},
    {'name': 'seq_count', 'fn': h_seq, 'cfg': {'kinds': 'FSn', 'counts': [0, 1, 2, 3, 64, 65, 255], 'allow': {0: F, 1: S, 2: N}}, 'bounds': 'counts of entries', 'expect': ['file', 'orphan']},
    {'name': 'seq_length', 'fn': h_seq, 'cfg': {'kinds': 'FSNn', 'counts': [3], 'lengths': [0, 1, 15, 16, 18, 255], 'allow': {0: F, 1: S, 2: N, 3: N}}, 'bounds': 'lengths of names', 'expect': ['file', 'orphan']},
    {'name': 'seq_type0', 'fn': h_seq, 'cfg': {'kinds': 'FSnn', 'counts': [2], 'allow': {1: S, 2: N, 3: N}}, 'bounds': 'every type of the first entry', 'expect': ['file+orphan', 'orphan+orphan', 'empty']},
    {'name': 'seq_type1', 'fn': h_seq, 'cfg': {'kinds': 'FSnn', 'counts': [2, 3], 'lengths': [16], 'allow': {0: F, 2: N, 3: N}}, 'bounds': 'every type of the second entry', 'expect': ['file', 'empty']},
    {'name': 'seq_type2', 'fn': h_seq, 'cfg': {'kinds': 'FSnn', 'counts': [2, 3], 'lengths': [16], 'allow': {0: F, 1: S, 3: N}}, 'bounds': 'every type of the third entry', 'expect': ['file', 'orphan', 'empty']},
    {'name': 'seq_type3', 'fn': h_seq, 'cfg': {'kinds': 'FSnff', 'counts': [4], 'lengths': [45], 'allow': {0: F, 1: S, 2: N, 4: [0xC1, 0x61, 0xE2]}}, 'bounds': 'every type of the fourth entry', 'expect': ['file', 'orphan']},
    {'name': 'seq_type4', 'fn': h_seq, 'cfg': {'kinds': 'FSnff', 'counts': [4], 'lengths': [45], 'allow': {0: F, 1: S, 2: N, 3: [0xC1, 0x61, 0xE2]}}, 'bounds': 'every type of the fifth entry', 'expect': ['file', 'orphan']},
    {'name': 'seq_stream3', 'fn': h_seq, 'cfg': {'kinds': 'FSnx', 'counts': [3], 'lengths': [3, 16], 'allow': {0: F, 1: S, 2: N}}, 'bounds': 'every type of the fourth entry, which is valid as a name and as a stream extension', 'expect': ['file', 'orphan']},
    {'name': 'seq_stream4', 'fn': h_seq, 'cfg': {'kinds': 'FSnNx', 'counts': [4], 'lengths': [30, 33], 'allow': {0: F, 1: S, 2: N, 3: [0xC1, 0x41, 0x61]}}, 'bounds': 'every type of the fifth entry, which is valid as a name and as a stream extension', 'expect': ['file', 'orphan']},
    {'name': 'seq_FSn', 'fn': h_seq, 'cfg': {'kinds': 'FSn', 'counts': [2, 3]}, 'bounds': 'every type of three entries', 'expect': ['file', 'orphan', 'empty'], 'tier': 'thorough'},
    {'name': 'seq_FSnff', 'fn': h_seq, 'cfg': {'kinds': 'FSnff', 'counts': [4], 'lengths': [45], 'allow': {0: F, 1: S, 2: N}}, 'bounds': 'every type of the last entries', 'expect': ['file', 'orphan'], 'tier': 'thorough'},
    {'name': 'seq_nFSn', 'fn': h_seq, 'cfg': {'kinds': 'nFSn', 'allow': {1: [0x85], 2: [0xC0], 3: [0xC1]}}, 'bounds': 'every type of the first entry', 'expect': ['file', 'orphan+file', 'empty']},
    {'name': 'seq_root', 'fn': h_seq, 'cfg': {'kinds': '0FSn', 'root': True, 'allow': {1: [5, 0x85], 2: [0x40, 0xC0], 3: [0x41, 0xC1]}}, 'bounds': 'every type of the first entry of the root directory', 'expect': ['file', 'bitmap+file', 'refused', 'empty']},
    {'name': 'long_17', 'fn': h_long, 'cfg': {'names': 17, 'length': 255}, 'bounds': 'a name of 255 characters', 'expect': ['file']},
    {'name': 'long_18', 'fn': h_long, 'cfg': {'names': 18, 'length': 255}, 'bounds': 'too many entries', 'expect': []},
    {'name': 'vendor_20', 'fn': h_long, 'cfg': {'names': 2, 'length': 30, 'vendor': 17}, 'bounds': 'a set of 21 entries with extensions of vendors', 'expect': ['file']},
    {'name': 'vendor_64', 'fn': h_long, 'cfg': {'names': 2, 'length': 30, 'vendor': 61}, 'bounds': 'a set of 65 entries with extensions of vendors', 'expect': ['file']},
    {'name': 'label', 'fn': h_label, 'cfg': {}, 'bounds': 'labels', 'expect': ['label', 'refused', 'empty']},
    {'name': 'bitmap', 'fn': h_bitmap, 'cfg': {}, 'bounds': 'three bitmaps', 'expect': ['bitmap+bitmap', 'refused', 'empty']},
    {'name': 'orphan', 'fn': h_orphan, 'cfg': {'n': 2, 'root': False}, 'bounds': 'two names', 'expect': ['orphan', 'orphan+orphan', 'empty']},
    {'name': 'orphan3', 'fn': h_orphan, 'cfg': {'n': 3, 'root': True}, 'bounds': 'three names', 'expect': ['orphan', 'orphan+orphan', 'empty'], 'tier': 'thorough'},
    {'name': 'end', 'fn': h_end, 'cfg': {}, 'bounds': 'the end of a directory', 'expect': ['orphan', 'file']},
]
