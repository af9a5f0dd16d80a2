"""C32: reading files and walking over directories of a FAT volume."""
from dfir_ntfs.addons import FAT
from harness.util import *
from harness.c29 import follow, value

FILES = ['dfir_ntfs/addons/FAT.py']
ASSUMPTIONS = ['Volumes with clusters of 512 or 1024 bytes and up to 5 clusters that are used.', 'Walks: up to three directories in the root directory, first clusters, deletion marks and elements of the table are arbitrary within the bounds of a case.',
               'Chains of clusters and directory entries are decoded as decided by C29 and C31.']
FAT.WARN_FUNC = lambda *a: None
LAST = 6  # the last valid cluster


def boot(typ, spc, clusters, root=16):
    """One FAT of one sector.  Clusters: the number of data clusters."""
    b = b'\xeb\0\0OEMOEMOE' + p16(512) + p8(spc) + p16(1) + p8(1)
    if typ == 32:
        total = 2 + clusters * spc
        b = b + p16(0) + p16(0) + b'\xf8' + p16(0) + b'\0' * 8 + p32(total) + p32(1) + p16(0) + p16(0) + p32(2) + p16(1) + p16(6)
    else:
        total = 2 + root // 16 + clusters * spc
        b = b + p16(root) + p16(0 if total > 65535 else total) + b'\xf8' + p16(1) + b'\0' * 8 + p32(total if total > 65535 else 0)
    return b + b'\0' * (510 - len(b)) + b'\x55\xaa'


def table(typ, elems):
    if typ == 32:
        return b''.join([p32(e) for e in elems])
    if typ == 16:
        return b''.join([p16(e) for e in elems])
    out = b''
    for i in range(0, len(elems), 2):
        a, b = elems[i], elems[i + 1] if i + 1 < len(elems) else 0
        out = out + p8(a % 256) + p8(a // 256 + (b % 16) * 16) + p8(b // 16)
    return out


def geometry(typ, spc):
    """(offset of the data area, number of data clusters for the type)"""
    if typ == 32:
        return 1024, LAST - 1
    if typ == 16:
        return 1536, 4085
    return 1536, LAST - 1


# ---- reading --------------------------------------------------------------------------------------

def h_read(ctx, typ, spc, sized, sizes=None, base=0, cut=None, volsize=None, firsts=(0, 2, 3, 5), earlier=None):
    ctx.pin()
    cs = 512 * spc
    data, n = geometry(typ, spc)
    width = {12: 12, 16: 8, 32: 16}[typ]
    fat = ctx.bytes('fat', {12: 9, 16: 12, 32: 24}[typ])
    last = 5 if typ != 16 else 4086
    if typ == 16:  # the elements after these end a chain, those far away are empty
        ctx.assume(ctx.And(*[ctx.Or(u16(fat, 2 * k) <= 5, u16(fat, 2 * k) >= 0xFFF0) for k in range(6)]))
    n = 4 if typ != 16 else n
    content = ctx.bytes('content', 4 * cs, array=True)
    img = boot(typ, spc, n) + fat + b'\0' * (512 - len(fat)) + (b'\0' * 512 if typ != 32 else b'') + content
    total = len(img)
    full = b'\xaa' * base + img
    if cut is not None:
        full = full[:len(full) - cut]
    first = ctx.choice('first', list(firsts))
    chain, good = follow(ctx, typ, fat + b'\0' * 64, 5, first)
    p = FAT.FileSystemParser(ctx.file(full), base, volsize)
    size = ctx.choice('size', sizes) if sized else None
    need = [c for i, c in enumerate(chain) if size is None or i * cs < size]
    limit = data + 4 * cs - (cut or 0)
    if volsize is not None:
        limit = min(limit, volsize)
    inside = all(c is None or data + (c - 1) * cs <= limit for c in need)
    if earlier:  # the same clusters were read before, as a file of another size
        try:
            p.read_chain(first, ctx.choice('before', earlier))
        except (FAT.FileAllocationTableException, ValueError):
            pass
    try:
        got = p.read_chain(first, size)
    except FAT.FileAllocationTableException:
        ctx.outcome('bad chain')
        ctx.check(not good, 'a valid chain is refused')
        return
    except ValueError:
        ctx.outcome('outside')
        ctx.check(not inside, 'data inside of the volume is refused')
        return
    ctx.check(good, 'an invalid chain is read')
    ctx.check(inside, 'data outside of the volume is read')
    n = len(need) * cs
    if size is not None:
        n = min(n, size)
    ctx.outcome('read %d' % len(need))
    ctx.check(len(got) == n, 'number of bytes')
    if n:
        j = ctx.int('j', 0, n - 1)

        def want(i):
            out = 0
            for k, c in enumerate(need):
                if c is not None:
                    out = ctx.If(ctx.And(i >= k * cs, i < (k + 1) * cs), ctx.byte_at(content, ctx.If(ctx.And(i >= k * cs, i < (k + 1) * cs), i - k * cs, 0) + (c - 2) * cs), out)
            return out
        ctx.check(ctx.byte_at(got, j) == want(j), 'content')


# ---- walking --------------------------------------------------------------------------------------

class Ent:
    def __init__(self, name, isdir, mark, fc):
        self.name, self.isdir, self.mark, self.fc = name, isdir, mark, fc

    def raw(self):
        name = self.name.ljust(11).encode()
        if self.mark == 'd':
            name = b'\xe5' + name[1:]
        return name + p8(0x10 if self.isdir else 0x20) + b'\0' * 14 + p16(self.fc) + p32(7)


def dots():
    return [Ent('.', True, 'a', 0), Ent('..', True, 'a', 0)]


class World:
    """Directories by cluster, elements of the table."""

    def __init__(self, ctx, typ, root, dirs, elems, scan):
        self.ctx, self.typ, self.root, self.dirs, self.elems, self.scan = ctx, typ, root, dirs, elems, scan
        self.realloc, self.visited, self.out = [], [], []

    def image(self):
        img = boot(self.typ, 1, geometry(self.typ, 1)[1])
        t = table(self.typ, self.elems)
        img = img + t + b'\0' * (512 - len(t))
        if self.typ != 32:
            img = img + self.bytes(self.root)
        for c in range(2, LAST + 1):
            img = img + self.bytes(self.dirs.get(c, []))
        return img

    def bytes(self, ents):
        b = b''.join([e.raw() for e in ents])
        return b + b'\0' * (512 - len(b))

    def known(self, v):
        """The cluster number (None: not a valid one)."""
        for k in range(0, LAST + 1):
            if self.ctx.fork(v == k):
                return k
        return None

    def chain(self, first):
        """As c29.follow, for the elements."""
        eoc = {12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}[self.typ]
        if first < 2:
            return []
        chain = [first]
        while True:
            v = self.elems[chain[-1]]
            k = self.known(v)
            if k is None:
                if self.ctx.fork(v == eoc - 1):
                    return chain + [None]
                return chain if self.ctx.fork(v >= eoc) else 'bad'
            if k < 2 or k in chain:
                return chain
            chain.append(k)

    def process(self, ents, path, stack, null=False):
        for e in ents:
            if e is None:
                null = True
                continue
            name = e.name
            if e.mark == 'd':
                name = '_' + name[1:]
            state = True if e.mark == 'd' else None if null else False
            sub = e.isdir and e.name not in ('.', '..')
            fc = None
            if sub:
                fc = self.known(e.fc)
                if fc in stack and fc != 0:
                    continue
            self.out.append((path + '/' + name, state))
            if not sub or fc is None:
                continue
            alloc = not self.ctx.fork(self.elems[fc] == 0)
            if not self.scan and e.mark == 'd' and alloc:
                self.realloc.append(fc)
                continue
            self.visited.append(fc)
            chain = self.chain(fc)
            if chain == 'bad' or not chain:
                continue
            if not self.scan and e.mark == 'd' and not self.has_dots(chain[0]):
                continue
            if e.mark == 'd' and len(chain) == 1 and fc + 1 <= LAST and self.ctx.fork(self.elems[fc + 1] == 0):
                a, b = self.dirs.get(fc, []), self.dirs.get(fc + 1, [])
                if len(a) >= 16 and b and not self.has_dots(fc + 1):
                    chain = [fc, fc + 1]
            self.process(self.content(chain), path + '/' + name, stack + [fc])

    def has_dots(self, c):
        d = self.dirs.get(c, [])
        return len(d) > 1 and d[1].name == '..'

    def content(self, chain):
        out = []
        for c in chain:
            d = self.dirs.get(c, []) if c is not None else []
            out += d
            if len(d) < 16:
                out.append(None)  # the end mark
        return out

    def expected(self):
        if self.typ == 32:
            chain = self.chain(2)
            if chain == 'bad':
                return 'bad'
            self.visited.append(2)
            self.process(self.content(chain), '', [2])
        else:
            self.process(self.content_root(), '', [])
        main = self.out
        orphans = []
        for c in self.realloc:
            if c in self.visited or c in [o[0] for o in orphans]:
                continue
            self.out = []
            orphans.append((c, self.out))
        visited = list(self.visited)
        for c, out in orphans:
            chain = self.chain(c)
            if chain == 'bad' or not chain or not self.has_dots(chain[0]) or self.dirs[chain[0]][0].name != '.':
                continue
            self.out = out
            self.process(self.content(chain), '<Orphan directory %d>' % c, [])
        return main, [o[1] for o in orphans]

    def content_root(self):
        return self.root + ([None] if len(self.root) < 16 else [])


def h_walk(ctx, typ, make, scan=(False,)):
    ctx.pin()
    scan = ctx.choice('scan', list(scan))
    root, dirs, elems = make(ctx, typ)
    w = World(ctx, typ, root, dirs, elems, scan)
    if typ == 32:
        w.dirs = dict(dirs)
        w.dirs[2] = root
    want = w.expected()
    p = FAT.FileSystemParser(ctx.file(w.image()))
    try:
        got = [(e.short_name, e.is_deleted) for e in p.walk('ascii', scan)]
    except FAT.FileAllocationTableException:
        ctx.outcome('bad root')
        ctx.check(want == 'bad', 'a volume is refused')
        return
    ctx.check(want != 'bad', 'an invalid root directory is accepted')
    main, orphans = want
    ctx.outcome('%d' % len(main))
    if any(orphans):
        ctx.outcome('orphans')
    total = len(main) + sum(len(o) for o in orphans)
    ctx.check(len(got) == total, 'number of entries')
    for g, e in zip(got, main):
        ctx.check(g[0] == e[0], 'path of an entry')
        ctx.check(g[1] == e[1], 'state of an entry')
    rest = got[len(main):]
    for o in orphans:
        if not o:
            continue
        mine = [g for g in rest if g[0].startswith(o[0][0].split('/')[0] + '/')]
        ctx.check(mine == o, 'entries of an orphan directory')


def ends(ctx, typ, free):
    """The elements of the table: 'free' ones are arbitrary, the others end a chain."""
    eoc = {12: 0xFFF, 16: 0xFFFF, 32: 0x0FFFFFFF}[typ]
    out = [eoc, eoc]
    for c in range(2, LAST + 1):
        if free.get(c) == 'any':
            out.append(ctx.int('elem%d' % c, 0, eoc))
        elif free.get(c) == 'alloc':
            out.append(ctx.If(ctx.int('elem%d' % c, 0, 1) == 1, eoc, 0))
        else:
            out.append(free.get(c, eoc))
    return out


def m_loop(ctx, typ):
    """Three nested directories: the first clusters are arbitrary."""
    f = [ctx.int('fc%d' % i, 0, 9) for i in range(3)]
    root = [Ent('X', True, 'a', 3), Ent('Y', True, 'a', f[0])]
    dirs = {3: dots() + [Ent('Z', True, 'a', f[1]), Ent('F', False, 'a', 3)], 4: dots() + [Ent('W', True, 'a', f[2])], 5: dots() + [Ent('G', False, 'a', 0)]}
    return root, dirs, ends(ctx, typ, {})


def m_chain(ctx, typ):
    """Directories of several clusters: two elements are arbitrary."""
    root = [Ent('X', True, 'a', 3), Ent('Y', True, 'a', ctx.int('fc', 0, 0xFFFF))]
    full = dots() + [Ent('F%d' % i, False, 'a', 0) for i in range(14)]
    dirs = {3: full, 4: dots() + [Ent('W', True, 'a', 5)], 5: [Ent('G', False, 'a', 0), Ent('D', True, 'd', 6)], 6: dots()}
    return root, dirs, ends(ctx, typ, {3: 'any', 4: 'any'})


def m_deleted(ctx, typ):
    """Deleted directories: allocated, reused, with and without dot entries."""
    m = ctx.choice('mark', ['a', 'd'])
    m2 = ctx.choice('mark2', ['a', 'd'])
    root = [Ent('X', True, m, ctx.int('fc0', 2, 6)), Ent('Y', True, m2, ctx.int('fc1', 3, 7))]
    dirs = {3: dots() + [Ent('Z', True, 'd', 5), Ent('F', False, 'd', 3)], 4: [Ent('G', False, 'a', 0)], 5: dots() + [Ent('H', False, 'a', 0)]}
    return root, dirs, ends(ctx, typ, {3: 'alloc', 4: 'alloc', 5: 'alloc'})


def m_extra(ctx, typ):
    """A deleted directory of more than one cluster: the next one is tried."""
    m = ctx.choice('mark', ['a', 'd'])
    nfull = ctx.choice('full', [13, 14, 15, 16])
    full = dots() + [Ent('F%d' % i, False, 'd', 0) for i in range(nfull - 2)]
    nxt = ctx.choice('next', ['none', 'dots', 'files'])
    dirs = {3: full, 4: [] if nxt == 'none' else dots() if nxt == 'dots' else [Ent('G', False, 'd', 0), Ent('H', False, 'a', 0)]}
    root = [Ent('X', True, m, 3)]
    return root, dirs, ends(ctx, typ, {3: 'any', 4: 'alloc'})


def m_orphan(ctx, typ):
    """Deleted directories whose clusters were reused by directories that are not reachable otherwise."""
    root = [Ent('X', True, 'd', ctx.int('fc0', 3, 5)), Ent('Y', True, 'd', ctx.int('fc1', 3, 5)), Ent('Z', True, 'a', ctx.int('fc2', 3, 6))]
    dirs = {3: dots() + [Ent('A', True, 'd', ctx.int('fc3', 3, 6))], 4: dots() + [Ent('B', True, 'a', 3)], 5: [Ent('C', False, 'a', 0), Ent('..', True, 'a', 0)], 6: dots()}
    return root, dirs, ends(ctx, typ, {})


def m_root(ctx, typ):
    """The root directory: several clusters."""
    full = [Ent('F%d' % i, False, 'a', 0) for i in range(ctx.choice('n', [15, 16]))]
    dirs = {3: [Ent('A', True, 'a', 4)], 4: dots()}
    return full, dirs, ends(ctx, typ, {2: 'any'})


Q = 'quick'
CASES = [
    {'name': 'read_12', 'fn': h_read, 'cfg': {'typ': 12, 'spc': 1, 'sized': False}, 'bounds': 'every table of 6 elements, every content', 'expect': ['bad chain', 'read 0', 'read 1', 'read 3']},
    {'name': 'read_16', 'fn': h_read, 'cfg': {'typ': 16, 'spc': 2, 'sized': False}, 'bounds': 'tables of 6 elements, every content', 'expect': ['read 0', 'read 1', 'read 3']},
    {'name': 'read_32', 'fn': h_read, 'cfg': {'typ': 32, 'spc': 2, 'sized': False}, 'bounds': 'every table of 6 elements, every content', 'expect': ['bad chain', 'read 0', 'read 1', 'read 3']},
    {'name': 'read_size', 'fn': h_read, 'cfg': {'typ': 32, 'spc': 1, 'sized': True, 'sizes': [0, 1, 511, 512, 513, 1024, 4096], 'firsts': (0, 3)}, 'bounds': 'sizes of a file', 'expect': ['bad chain', 'read 0', 'read 1', 'read 3']},
    {'name': 'read_base', 'fn': h_read, 'cfg': {'typ': 12, 'spc': 2, 'sized': False, 'base': 1024, 'volsize': 1536 + 3 * 1024}, 'bounds': 'a volume inside of an image, larger than its size', 'expect': ['bad chain', 'read 0', 'read 1', 'outside']},
    {'name': 'read_twice', 'fn': h_read, 'cfg': {'typ': 32, 'spc': 1, 'sized': True, 'sizes': [None, 513], 'firsts': (3,), 'earlier': [1]}, 'bounds': 'two reads of one chain', 'expect': ['bad chain', 'read 1', 'read 3']},
    {'name': 'read_cut', 'fn': h_read, 'cfg': {'typ': 32, 'spc': 2, 'sized': True, 'sizes': [1024, 4096], 'cut': 1, 'firsts': (2, 5)}, 'bounds': 'a truncated image', 'expect': ['bad chain', 'read 1', 'outside']},
]
for t, ts in ((12, Q), (32, Q), (16, 'thorough')):
    for nm, fn, sc, ex in (('loop', m_loop, (False, True), ['8']), ('chain', m_chain, (False,), ['23']), ('deleted', m_deleted, (False, True), ['4']), ('extra', m_extra, (False, True), ['17']), ('orphan', m_orphan, (False, True), ['orphans'])) + ((('root', m_root, (False,), ['bad root', '16']),) if t == 32 else ()):
        CASES.append({'name': 'walk_%s_%d' % (nm, t), 'fn': h_walk, 'cfg': {'typ': t, 'make': fn, 'scan': sc}, 'bounds': fn.__doc__.strip(), 'expect': ex if t == 32 else ex[:0], 'tier': ts})
