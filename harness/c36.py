"""C36: walking over directories of an exFAT volume."""
from dfir_ntfs.addons import exFAT
from harness.util import *
from harness.c34 import primary, stream, name_entry
from harness.c35 import volume, bitmap_entry, EOC, BADC

FILES = ['dfir_ntfs/addons/exFAT.py']
ASSUMPTIONS = ['Volumes with clusters of 512 bytes: up to 5 directories, whose first clusters, sizes, deletion marks, timestamps, elements of the table and bits of the bitmap are arbitrary within the bounds of a case.',
               'Chains and directory entries are decoded as decided by C34 and C35.']
LAST = 8  # the last cluster with data
COUNT = 126


class Ent:
    def __init__(self, name, isdir, mark, fc, size=512, plain=False, mtime=0):
        self.name, self.isdir, self.mark, self.fc, self.size, self.plain, self.mtime = name, isdir, mark, fc, size, plain, mtime

    def raw(self):
        d = 0x80 if self.mark == 'a' else 0
        units = [ord(c) for c in self.name]
        img = primary(2, attr=b'\x10\0' if self.isdir else b'\x20\0', times=b'\0' * 4 + p32(self.mtime) + b'\0' * 4, typ=p8(5 + d))
        img = img + stream(3 if self.plain else 1, len(units), first=p32(self.fc), size=p64(self.size), typ=p8(0x40 + d)) + name_entry(units, p8(0x41 + d))
        if d:
            img = img[:2] + p16(exFAT.EntrySetChecksum(img)) + img[4:]
        return img


class Name:
    """A name outside of a set."""

    def __init__(self, name):
        self.name = name

    def raw(self):
        return name_entry([ord(c) for c in self.name], b'\x41')


class Label:
    def __init__(self, name):
        self.name = name

    def raw(self):
        return b'\x83' + name_entry([ord(c) for c in self.name], b'\x83', len(self.name))[1:]


class World:
    def __init__(self, ctx, root, dirs, elems, bits, scan, short=False):
        self.ctx, self.root, self.dirs, self.elems, self.bits, self.scan, self.short = ctx, root, dirs, elems, bits, scan, short
        self.realloc, self.visited, self.out = {}, [], []

    def image(self):
        b = lambda ents: b''.join([e.raw() for e in ents])
        bm = 3
        for c, v in self.bits.items():
            bm = bm + self.ctx.If(v, 1 << (c - 2), 0)
        fat = p32(0xFFFFFFF8) + b''.join([p32(self.elems.get(c, EOC)) for c in range(1, LAST + 1)])
        root = bitmap_entry(0, 3) + b(self.root)
        return volume(0, fat, [root, p8(bm % 256) + b'\0' * 511] + [b(self.dirs.get(c, [])) for c in range(4, LAST + 1)])

    def known(self, v):
        """The cluster number (None: not a valid one)."""
        for k in range(0, LAST + 1):
            if self.ctx.fork(v == k):
                return k
        return None

    def chain(self, e_fc, size, plain):
        """The clusters of a directory (None: not readable)."""
        n = -(-size // 512)
        if plain:
            out = [e_fc + k for k in range(min(n, COUNT + 2 - e_fc))]
            return None if any(c > LAST for c in out) else out
        chain = [e_fc]
        while True:
            v = self.elems.get(chain[-1], EOC)
            k = self.known(v)
            if k is None:
                if self.ctx.fork(v == EOC):
                    break
                if self.ctx.fork(v == BADC):
                    chain.append(None)
                    break
                if self.ctx.fork(v <= COUNT + 1):
                    chain.append('far')  # not in the image, its element is 0
                    break
                return None
            if k < 2 or k in chain:
                break
            chain.append(k)
        return None if 'far' in chain[:n] else chain[:n]

    def content(self, chain, size):
        """None: nothing to decode."""
        if chain is None or not chain:
            return None
        n = min(size, 512 * len(chain))
        if n % 512:
            return None
        out = []
        for c in chain:
            d = [bitmap_entry(0, 3)] + self.root if c == 2 else self.dirs.get(c, []) if c is not None else []
            if c == 2:
                return []  # a directory in use that has a bitmap is invalid: nothing is reported
            if c == 3:
                return 'bitmap'
            out += d
            if sum(len(e.raw()) for e in d) < 512:
                break
        return out

    def process(self, ents, path, stack):
        for e in ents:
            if type(e) is Label:
                if not path:
                    self.out.append(('label', e.name))
                else:
                    return
                continue
            if type(e) is Name:
                self.out.append(('orphan', path + '/' + e.name))
                continue
            fc = self.known(e.fc)
            if fc is not None:
                e.fc = fc  # decided on this path
            if e.isdir and fc != 0 and fc in stack:
                continue
            self.out.append(('file', path + '/' + e.name, e.mark == 'd', fc))
            if not e.isdir or fc is None or fc < 2:
                continue
            alloc = self.ctx.fork(self.bits[fc]) if fc in self.bits else fc in (2, 3)
            if e.mark == 'd' and alloc and not self.scan:
                old = self.realloc.get(fc)
                if old is None or self.newer(e.mtime, old[0]):
                    self.realloc[fc] = (e.mtime, e.size, e.plain)
                continue
            self.visited.append(fc)
            c = self.content(self.chain(fc, e.size, e.plain), e.size)
            if c is None:
                continue
            self.ctx.assume(c != 'bitmap')
            self.process(c, path + '/' + e.name, stack + [fc])

    def newer(self, a, b):
        """Timestamps that are not valid (here: 0) are older than all others."""
        return self.ctx.fork(a > b)

    def expected(self):
        self.process(self.root, '', [2])
        main, orphans = self.out, []
        todo = [c for c in self.realloc if c not in self.visited]
        meta = dict(self.realloc)
        for c in todo:
            self.out = []
            fc, (__, size, plain) = c, meta[c]
            d = self.content(self.chain(fc, size, plain), size)
            if d is None:
                continue
            self.ctx.assume(d != 'bitmap')
            if not d or type(d[0]) is not Ent or d[0].mark != 'd':
                continue
            self.process(d, '<Orphan directory %d>' % c, [])
            orphans.append(self.out)
        return main, orphans


def view(e):
    if type(e) is exFAT.FileEntry:
        return ('file', e.name, e.is_deleted, e.first_cluster)
    if type(e) is exFAT.OrphanEntry:
        return ('orphan', e.name_partial)
    return ('label', e.volume_label)


def agree(ctx, g, w):
    if w[0] != 'file' or g[0] != 'file':
        return g == w
    return g[1] == w[1] and g[2] == w[2] and (w[3] is None or ctx.fork(g[3] == w[3]))


def h_walk(ctx, make, scan=(False,)):
    ctx.pin()
    ctx.merge()
    scan = ctx.choice('scan', list(scan))
    root, dirs, elems, bits = make(ctx)
    w = World(ctx, root, dirs, elems, bits, scan)
    main, orphans = w.expected()
    p = exFAT.FileSystemParser(ctx.file(w.image()))
    got = [view(e) for e in p.walk(scan)]
    ctx.outcome('%d' % len(main))
    if any(orphans):
        ctx.outcome('orphans')
    ctx.check(len(got) == len(main) + sum(len(o) for o in orphans), 'number of entries')
    for g, e in zip(got, main):
        ctx.check(agree(ctx, g, e), 'an entry')
    rest = got[len(main):]
    for o in orphans:
        if o:
            mine = [g for g in rest if g[1].startswith(o[0][1].split('/')[0] + '/')]
            ctx.check(len(mine) == len(o), 'entries of an orphan directory')
            for g, e in zip(mine, o):
                ctx.check(agree(ctx, g, e), 'an entry of an orphan directory')


def bits(ctx, free=(), value=True):
    """Bits of the clusters 4 to LAST: some are arbitrary, the others have a value."""
    return {c: (ctx.bool('bit%d' % c) if c in free else value) for c in range(4, LAST + 1)}


def m_loop(ctx):
    """Three nested directories: the first clusters are arbitrary."""
    f = [ctx.int('fc%d' % i, 0, 9) for i in range(3)]
    for v in f:
        ctx.assume(v != 3)
    root = [Label('VOL'), Ent('X', True, 'a', 4), Ent('Y', True, 'a', f[0])]
    dirs = {4: [Ent('Z', True, 'a', f[1]), Ent('F', False, 'a', 4)], 5: [Ent('W', True, 'a', f[2])], 6: [Ent('G', False, 'a', 0)]}
    return root, dirs, {}, bits(ctx)


def m_chain(ctx):
    """Directories of several clusters: elements are arbitrary."""
    n = ctx.choice('n', [512, 1024, 4096])
    root = [Ent('X', True, 'a', 4, n), Ent('L', False, 'd', 4)]
    full = [Ent('F%d' % i, False, 'd', 0) for i in range(5)] + [Name('tail')]
    dirs = {4: full, 5: [Ent('W', True, 'a', 6)], 6: [Ent('G', False, 'a', 0), Label('X'), Ent('H', False, 'a', 0)]}
    e4, e5 = ctx.int('e4', 0, EOC), ctx.int('e5', 0, EOC)
    for e in (e4, e5):
        ctx.assume(ctx.And(e != 3, e != 2, ctx.Or(e <= LAST + 1, e >= 0xFFFFFFF6, e == COUNT + 2)))
    return root, dirs, {4: e4, 5: e5}, bits(ctx)


def m_plain(ctx):
    """Directories without a chain."""
    n = ctx.choice('n', [0, 1, 511, 512, 513, 1024, 2560, 3072, 1 << 40])
    plain = ctx.choice('plain', [True, False])
    mark = ctx.choice('mark', ['a', 'd'])
    if n > 4096:
        plain = True
    root = [Ent('X', True, mark, 4, n, plain), Ent('L', False, 'a', 4)]
    full = [Ent('F%d' % i, False, 'd', 0) for i in range(5)] + [Name('tail')]
    dirs = {4: full, 5: [Ent('W', True, 'a', 6)], 6: [Ent('G', False, 'a', 0)]}
    return root, dirs, {}, bits(ctx, (4,))


def m_deleted(ctx):
    """Deleted directories: allocated or not."""
    root = [Ent('X', True, ctx.choice('mark', ['a', 'd']), ctx.int('fc0', 4, 7)), Ent('Y', True, ctx.choice('mark2', ['a', 'd']), ctx.int('fc1', 4, 7))]
    dirs = {4: [Ent('Z', True, 'd', 6), Ent('F', False, 'd', 4)], 5: [Ent('G', False, 'a', 0)], 6: [Ent('H', False, 'a', 0)]}
    return root, dirs, {}, bits(ctx, (4, 5, 6))


def m_orphan(ctx):
    """Deleted directories whose clusters are allocated and not reachable otherwise."""
    root = [Ent('X', True, 'd', ctx.int('fc0', 4, 6)), Ent('Y', True, 'd', ctx.int('fc1', 4, 6)), Ent('Z', True, 'a', ctx.int('fc2', 4, 7))]
    dirs = {4: [Ent('A', True, 'd', ctx.int('fc3', 4, 7)), Ent('I', False, 'a', 0)], 5: [Ent('B', True, 'd', 4)], 6: [Ent('C', False, 'a', 0), Ent('D', False, 'd', 0)], 7: [Name('free')]}
    return root, dirs, {}, bits(ctx)


DAY = (1 << 21) + (1 << 16)  # 1980-02-... : a valid day


def m_recent(ctx):
    """Two deleted directories with the same first cluster: the size of the more recent one is used."""
    t = [ctx.choice('t%d' % i, [0, DAY, DAY + 32, DAY + (1 << 25)]) for i in range(2)]
    s = ctx.choice('sizes', [(512, 1024), (1024, 512), (600, 512), (512, 0), (512, 700)])
    root = [Ent('X', True, 'd', 4, s[0], True, t[0]), Ent('Y', True, 'd', 4, s[1], True, t[1])]
    dirs = {4: [Ent('F%d' % i, False, 'd', 0) for i in range(5)] + [Name('tail')], 5: [Ent('G', False, 'a', 0)]}
    return root, dirs, {}, bits(ctx)


def m_root(ctx):
    """The root directory of several clusters."""
    root = [Ent('F%d' % i, False, 'd', 0) for i in range(5)]
    kind = ctx.choice('kind', ['dir', 'name'])
    return root, {4: [Ent('X', True, 'a', 5)], 5: [Ent('G', False, 'a', 0)] if kind == 'dir' else [Name('name')]}, {2: ctx.choice('next', [4, EOC, 5, 0])}, bits(ctx)


def h_root(ctx):
    ctx.pin()
    root, dirs, elems, bit = m_root(ctx)
    w = World(ctx, root, dirs, elems, bit, False)
    nxt = elems[2]
    w.root = root + dirs.get(nxt, [])
    main, orphans = w.expected()
    w.root = root
    p = exFAT.FileSystemParser(ctx.file(w.image()))
    got = [view(e) for e in p.walk()]
    ctx.outcome('%d' % len(main))
    ctx.check(got == main, 'entries of the root directory')


def h_sizes(ctx):
    """Clusters of 1024 bytes: a directory whose size is a multiple of 512 is shown, up to that size."""
    ctx.pin()
    size = ctx.choice('size', [0, 1, 512, 513, 1024, 1536, 2048])
    plain = ctx.choice('plain', [False, True])
    files = [Ent('f%d' % k, False, 'a', 0, 0) for k in range(2)]
    raw = files[0].raw()  # 96 bytes, then unknown entries that are not in use
    while len(raw) < 1024 + 96:
        raw = raw + b'\x01' + b'\0' * 31
    body = raw + files[1].raw()
    fat = p32(0xFFFFFFF8) + p32(EOC) + p32(EOC) + p32(EOC) + p32(5) + p32(EOC) + p32(EOC)
    img = volume(1, fat, [bitmap_entry(0, 3) + Ent('dir', True, 'a', 4, size, plain).raw(), b'\xff', body[:1024], body[1024:]])
    fs = exFAT.FileSystemParser(ctx.file(img))
    got = [e.name for e in fs.walk() if type(e) is exFAT.FileEntry]
    want = ['/dir']
    if size and size % 512 == 0:
        want += ['/dir/f0'] + (['/dir/f1'] if size > 1024 else [])
    ctx.outcome('%d' % len(want))
    ctx.check(sorted(got) == sorted(want), 'entries of a directory')


CASES = [{'name': nm, 'fn': h_walk, 'cfg': {'make': fn, 'scan': sc}, 'bounds': fn.__doc__.strip(), 'expect': ex} for nm, fn, sc, ex in (
    ('loop', m_loop, (False, True), ['9']), ('chain', m_chain, (False,), ['2']), ('plain', m_plain, (False, True), ['2']), ('deleted', m_deleted, (False, True), ['4']),
    ('orphan', m_orphan, (False, True), ['orphans']), ('recent', m_recent, (False,), ['orphans']))]
CASES.append({'name': 'root', 'fn': h_root, 'cfg': {}, 'bounds': m_root.__doc__.strip(), 'expect': ['5']})
CASES.append({'name': 'sizes', 'fn': h_sizes, 'cfg': {}, 'bounds': 'one directory on a volume with clusters of 1024 bytes, seven sizes, with and without a chain', 'expect': ['1', '2', '3']})
