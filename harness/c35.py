"""C35: cluster chains, the allocation bitmap, reading of files and the choice of a boot region of an exFAT volume."""
from dfir_ntfs.addons import exFAT
from harness.util import *

FILES = ['dfir_ntfs/addons/exFAT.py']
ASSUMPTIONS = ['Tables of up to 6 arbitrary elements, volumes with clusters of 512 or 1024 bytes of which up to 5 hold data.', 'The boot region is checked as decided by C33, root directories are decoded as decided by C34.']
BADC, EOC = 0xFFFFFFF7, 0xFFFFFFFF


def follow(ctx, elem, last, first):
    """(the chain, True if it is valid).  elem(k): the element number k, last: the last valid cluster."""
    if ctx.fork(first < 2):
        return [], True
    if ctx.fork(first == BADC):
        return [], False
    chain, cur = [], first
    while True:
        k = None
        for c in range(2, last + 1):
            if ctx.fork(cur == c):
                k = c
                break
        if k is None:
            return chain, False
        chain.append(k)
        v = elem(k)
        if ctx.fork(ctx.Or(v == EOC, v < 2, *[v == c for c in chain])):
            return chain, True
        if ctx.fork(v == BADC):
            return chain + [None], True
        cur = v


def h_chain(ctx, n, first, base, last, size=512, cut=None):
    """n elements are arbitrary."""
    ctx.pin()
    raw = ctx.bytes('fat', 4 * n)
    data = b'\x55' * base + raw + b'\0' * (512 - 4 * n)
    end = 512
    if cut is not None:
        data, end = data[:base + cut], cut
    f = exFAT.FAT(ctx.file(data), base, size, last)
    fc = ctx.int('first', 0, 0xFFFFFFFF) if first is None else first
    chain, ok = follow(ctx, lambda k: u32(raw + b'\0' * 512, 4 * k), min(last, end // 4 - 1), fc)
    try:
        got = f.chain(fc)
    except exFAT.FileAllocationTableException:
        ctx.outcome('refused')
        ctx.check(not ok, 'a valid chain is refused')
        return
    ctx.outcome('%d' % len(chain))
    ctx.check(ok, 'an invalid chain is accepted')
    ctx.check(len(got) == len(chain), 'length of a chain')
    for g, w in zip(got, chain):
        ctx.check((g is None) == (w is None) and (w is None or g == w), 'cluster of a chain')


def h_element(ctx):
    ctx.pin()
    raw = ctx.bytes('fat', 512, array=True)
    size, last = ctx.choice('size', [512, 1024]), ctx.choice('last', [5, 126, 127, 128, 300])
    base = ctx.choice('base', [0, 512])
    f = exFAT.FAT(ctx.file(b'\0' * base + raw), base, size, last)
    k = ctx.int('k', 0, 0xFFFFFFFF)
    try:
        got = f.get_element(k)
    except exFAT.FileAllocationTableException:
        ctx.outcome('refused')
        ctx.check(ctx.Or(k > last, k > 127), 'a valid element is refused')
        return
    ctx.outcome('element')
    ctx.check(ctx.And(k <= last, k <= 127), 'an element outside of the table')
    ctx.check(got == a32(ctx, raw, k * 4), 'element')
    ctx.check(f.get_media_type() == raw[0], 'media type')


def h_params(ctx):
    off, size = ctx.int('off', 0, 1 << 40), ctx.int('size', 0, 1 << 40)
    good = ctx.And(off % 512 == 0, size % 512 == 0, size >= 512)
    try:
        exFAT.FAT(ctx.file(b''), off, size, 10)
    except exFAT.FileAllocationTableException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(good), 'a valid place is refused')
        return
    ctx.outcome('accepted')
    ctx.check(good, 'an invalid place is accepted')


def h_bitmap(ctx, n):
    raw = ctx.bytes('bitmap', n)
    last = ctx.choice('last', [2, 9, 10, 8 * n + 1, 8 * n + 2, 8 * n + 100])
    c = ctx.int('c', 0, 0xFFFFFFFF)
    got = exFAT.Bitmap(raw, last).is_allocated(c)
    if not ctx.fork(ctx.And(c >= 2, c <= last, c - 2 < 8 * n)):
        ctx.outcome('none')
        ctx.check(got is None, 'a cluster that does not exist')
        return
    ctx.outcome('bit')
    ctx.check(got is not None, 'a cluster has no state')
    for k in range(8 * n):
        ctx.check(ctx.Implies(c == k + 2, ctx.And(ctx.Implies(got, (raw[k // 8] // (1 << k % 8)) % 2 == 1), ctx.Implies((raw[k // 8] // (1 << k % 8)) % 2 == 1, got))), 'state of a cluster')


# ---- volumes --------------------------------------------------------------------------------------

FATSEC, COUNT = 96, 126


MADE = {}


def region(**kw):
    key = tuple(sorted(kw.items()))
    if key not in MADE:
        MADE[key] = make_region(**kw)
    return MADE[key]


def make_region(ss=9, cshift=0, fats=1, flags=0, count=COUNT, root=2, fatlen=1, serial=1, fatoff=FATSEC, heap=None):
    bps = 1 << ss
    heap = fatoff + fatlen * fats if heap is None else heap
    s = b'\xeb\x76\x90EXFAT   ' + b'\0' * 53 + p64(0) + p64(1 << 20) + p32(fatoff) + p32(fatlen) + p32(heap) + p32(count) + p32(root) + p32(serial) + b'\0\1' + p16(flags)
    s = s + p8(ss) + p8(cshift) + p8(fats) + b'\x80\xff' + b'\0' * 397 + b'\x55\xaa'
    s = s + b'\0' * (11 * bps - 512)
    x = 0
    for i, v in enumerate(s):
        if i not in (106, 107, 112):
            x = ((x % 2) * 0x80000000 + x // 2 + v) % (1 << 32)
    return s + p32(x) * (bps // 4)


def bitmap_entry(ident, first, size=16):
    return b'\x81' + p8(ident) + b'\0' * 18 + p32(first) + p64(size)


def sector(data, n=512):
    return data + b'\0' * (n - len(data))


def volume(spc_shift, fat, clusters, fats=1, flags=0, fat2=None, root=2):
    """clusters: the content of the clusters from number 2 on."""
    r = region(cshift=spc_shift, fats=fats, flags=flags, root=root)
    img = r + r
    img = img + b'\0' * (FATSEC * 512 - len(img)) + sector(fat)
    if fats == 2:
        img = img + sector(fat2 if fat2 is not None else fat)
    for c in clusters:
        img = img + sector(c, 512 << spc_shift)
    return img


def h_read(ctx, spc, no_fat, sizes, firsts, base=0, cut=0, volsize=None, earlier=None):
    """The root directory is in cluster 2, the bitmap in cluster 3, the content in clusters 4 to 8."""
    ctx.pin()
    cs = 512 << spc
    elems = ctx.bytes('elems', 12)  # of the clusters 4 to 6
    ctx.assume(ctx.And(*[ctx.Or(u32(elems, 4 * k) <= 9, u32(elems, 4 * k) >= 0xFFFFFFF0, u32(elems, 4 * k) == COUNT + 1, u32(elems, 4 * k) == COUNT + 2) for k in range(3)]))
    fat = p32(0xFFFFFFF8) + p32(EOC) + p32(EOC) + p32(EOC) + elems + p32(EOC) + p32(EOC)
    content = ctx.bytes('content', 5 * cs, array=True)
    img = b'\xaa' * base + volume(spc, fat, [bitmap_entry(0, 3), b'\xff']) + content
    img = img[:len(img) - cut]
    data = (FATSEC + 1) * 512
    first = ctx.choice('first', firsts)
    size = ctx.choice('size', sizes)
    p = exFAT.FileSystemParser(ctx.file(img), base, volsize)
    if no_fat:
        chain, ok = [], True
        if first >= 2 and size > 0:
            chain = [first + k for k in range(min(-(-size // cs), max(COUNT + 2 - first, 0)))]
    else:
        chain, ok = follow(ctx, lambda k: u32(fat + b'\0' * 512, 4 * k), COUNT + 1, first)
    need = [c for i, c in enumerate(chain) if size is None or i * cs < size]
    limit = len(img) - base if volsize is None else min(volsize, len(img) - base)
    inside = all(c is None or data + (c - 1) * cs <= limit for c in need)
    if earlier:  # the same clusters were read before, as a file of another size
        try:
            p.read_chain(first, *ctx.choice('before', earlier))
        except (exFAT.FileAllocationTableException, ValueError):
            pass
    try:
        got = p.read_chain(first, size, no_fat)
    except exFAT.FileAllocationTableException:
        ctx.outcome('bad chain')
        ctx.check(not ok, 'a valid chain is refused')
        return
    except ValueError:
        ctx.outcome('outside')
        ctx.check(not inside, 'data inside of the volume is refused')
        return
    ctx.check(ok, 'an invalid chain is read')
    ctx.check(inside, 'data outside of the volume is read')
    n = len(need) * cs
    if size is not None:
        n = min(n, size)
    ctx.outcome('read %d' % len(need))
    ctx.check(len(got) == n, 'number of bytes')
    if n:
        j = ctx.int('j', 0, n - 1)
        out = 0
        for k, c in enumerate(need):
            if c is not None and c >= 4:
                here = ctx.And(j >= k * cs, j < (k + 1) * cs)
                out = ctx.If(here, ctx.byte_at(content, ctx.If(here, j - k * cs, 0) + (c - 4) * cs), out)
            elif c is not None:
                return  # the directory or the bitmap
        ctx.check(ctx.byte_at(got, j) == out, 'content')


def h_nosize(ctx):
    ctx.pin()
    p = exFAT.FileSystemParser(ctx.file(volume(0, p32(EOC) * 5, [bitmap_entry(0, 3), b'\xff'])))
    try:
        p.read_chain(ctx.int('first', 0, 200), None, True)
    except ValueError:
        ctx.outcome('refused')
        return
    ctx.fail('a file of an unknown size is read')


def h_regions(ctx):
    """Which boot region is used."""
    ctx.pin()
    state = [ctx.choice('r%d' % i, ['512', '4096', 'bad']) for i in range(3)]
    ctx.assume(ctx.Not(ctx.And(state[0] == '4096', state[1] != 'bad')))  # these regions overlap
    ctx.assume(ctx.Not(ctx.And(state[1] == '4096', state[2] != 'bad')))
    base = ctx.choice('base', [0, 512])
    fatoff = 1000
    img = b'\0' * (fatoff * 512 + 512 * 200)
    for s, off, serial in zip(state, [0, 12 * 512, 12 * 4096], (1, 2, 3)):
        if s != 'bad':
            ss = 9 if s == '512' else 12
            r = region(ss=12, fatoff=fatoff * 512 >> 12, fatlen=1, count=200, serial=serial, heap=126) if ss == 12 else region(ss=9, fatoff=fatoff, fatlen=9, count=1100, serial=serial, heap=1010)
            img = img[:off] + r + img[off + len(r):]
    fat = p32(EOC) * 5
    img = put(img, fatoff * 512, fat)
    img = put(img, 1010 * 512, bitmap_entry(0, 3))
    img = put(img, 126 * 4096, bitmap_entry(0, 3))
    img = put(img, 126 * 4096 + 4096, b'\xff' * 4096)
    want = None
    if state[0] != 'bad':
        want = 0
    elif state[1] != 'bad':
        want = 1 if state[1] == '512' else None
    elif state[2] == '4096':
        want = 2
    try:
        p = exFAT.FileSystemParser(ctx.file(b'\0' * base + img), base)
    except exFAT.BootRegionException:
        ctx.outcome('none')
        ctx.check(want is None, 'a valid boot region is not used')
        return
    ctx.check(want is not None, 'an invalid boot region is used')
    ctx.outcome('region %d' % want)
    ctx.check(p.br.get_volumeserialnumber() == want + 1, 'wrong boot region')
    ctx.check(p.backup_used == (want != 0), 'flag of a backup')


def h_open(ctx, fats):
    """Which table and which bitmap are used."""
    ctx.pin()
    flags = ctx.choice('flags', [0, 1] if fats == 2 else [0])
    ids = [ctx.int('id%d' % i, 0, 255) for i in range(2)]
    ents = b''
    kinds = ctx.choice('kinds', ['BB', 'B', 'LB', '', 'FB'])
    k = 0
    for ch in kinds:
        if ch == 'B':
            ents = ents + bitmap_entry(ids[k], 3 + k)
            k += 1
        elif ch == 'L':
            ents = ents + b'\x83\x02A\0B\0' + b'\0' * 26
        else:
            ents = ents + b'\x85' + b'\0' * 31
    bm = [ctx.bytes('bm%d' % i, 2) for i in range(2)]  # the first byte and the last one
    fat1 = p32(EOC) * 4 + ctx.bytes('fat1', 4)
    fat2 = p32(EOC) * 4 + ctx.bytes('fat2', 4)
    img = volume(0, fat1, [ents] + [b[:1] + b'\0' * 14 + b[1:] + b'\0' * 496 for b in bm], fats, flags, fat2)
    act = 1 if flags else 0
    found = None
    for i in range(k):
        if ctx.fork(ids[i] % 2 == act):
            found = i
            break
    # the chain of the second bitmap has an arbitrary element
    ok = found != 1 or follow(ctx, lambda c: EOC if c < 4 else u32(fat2 if act else fat1, 16) if c == 4 else 0, COUNT + 1, 4) == ([4], True)
    ctx.assume(ok)
    try:
        p = exFAT.FileSystemParser(ctx.file(img))
    except exFAT.FileSystemException:
        ctx.outcome('none')
        ctx.check(found is None, 'a bitmap is not used')
        return
    ctx.check(found is not None, 'no bitmap')
    ctx.outcome('bitmap %d of %d' % (found, act))
    ctx.check(p.fat.get_element(4) == u32(fat2 if act else fat1, 16), 'wrong table')
    ctx.check(p.bm.is_allocated(COUNT + 2) is None, 'a cluster that does not exist')
    for i in (0, 1, 2, COUNT - 6, COUNT - 5, COUNT - 1):
        w = (bm[found][i // 120] // (1 << i % 8)) % 2 == 1
        g = p.bm.is_allocated(2 + i)
        ctx.check(g is not None and ctx.And(ctx.Implies(g, w), ctx.Implies(w, g)), 'wrong bitmap')
    ctx.check(p.last_valid_cluster == COUNT + 1 and p.cluster_size == 512, 'geometry')


def h_small(ctx):
    n = ctx.int('n', 0, 1 << 21)
    img = volume(0, p32(EOC) * 5, [bitmap_entry(0, 3), b'\xff'])
    ctx.assume(ctx.Or(n < 1 << 20, n >= 1 << 20))
    try:
        exFAT.FileSystemParser(ctx.file(img), 0, n)
    except ValueError:
        ctx.outcome('refused')
        ctx.check(n < 1 << 20, 'a volume is refused')
        return
    ctx.outcome('accepted')
    ctx.check(n >= 1 << 20, 'a volume that is too small')


CASES = [
    {'name': 'chain', 'fn': h_chain, 'cfg': {'n': 6, 'first': 2, 'base': 512, 'last': 5}, 'bounds': 'every table of 4 clusters', 'expect': ['refused', '1', '2', '3', '4']},
    {'name': 'first', 'fn': h_chain, 'cfg': {'n': 5, 'first': None, 'base': 0, 'last': 4}, 'bounds': 'every first cluster, 3 clusters', 'expect': ['refused', '0', '1', '2', '3']},
    {'name': 'long', 'fn': h_chain, 'cfg': {'n': 7, 'first': 2, 'base': 0, 'last': 6}, 'bounds': 'every table of 5 clusters', 'expect': ['refused', '1', '5'], 'tier': 'thorough'},
    {'name': 'cut', 'fn': h_chain, 'cfg': {'n': 5, 'first': 2, 'base': 512, 'last': 40, 'cut': 18}, 'bounds': 'a truncated table', 'expect': ['refused', '1', '2']},
    {'name': 'element', 'fn': h_element, 'cfg': {}, 'bounds': 'every element', 'expect': ['refused', 'element']},
    {'name': 'params', 'fn': h_params, 'cfg': {}, 'bounds': 'every place of a table', 'expect': ['refused', 'accepted']},
    {'name': 'bitmap', 'fn': h_bitmap, 'cfg': {'n': 3}, 'bounds': 'every bitmap of 3 bytes, every cluster', 'expect': ['none', 'bit']},
    {'name': 'read', 'fn': h_read, 'cfg': {'spc': 0, 'no_fat': False, 'sizes': [None], 'firsts': [0, 1, 4, 8, 200, BADC]}, 'bounds': 'every table of three elements, every content', 'expect': ['bad chain', 'read 0', 'read 1', 'read 3', 'outside']},
    {'name': 'read_1k', 'fn': h_read, 'cfg': {'spc': 1, 'no_fat': False, 'sizes': [1, 1024, 1025, 3000], 'firsts': [4]}, 'bounds': 'sizes of a file', 'expect': ['bad chain', 'read 1', 'read 2', 'read 3', 'outside']},
    {'name': 'read_plain', 'fn': h_read, 'cfg': {'spc': 1, 'no_fat': True, 'sizes': [0, 1, 1023, 1024, 1025, 5120, 5121, 1 << 63], 'firsts': [0, 1, 4, 5, 8, 127, 128, 0xFFFFFFF0]}, 'bounds': 'files without a chain', 'expect': ['read 0', 'read 1', 'read 2', 'read 5', 'outside']},
    {'name': 'read_twice', 'fn': h_read, 'cfg': {'spc': 0, 'no_fat': False, 'sizes': [None, 513], 'firsts': [4], 'earlier': [(1, False), (1, True)]}, 'bounds': 'two reads of one chain', 'expect': ['bad chain', 'read 1', 'read 3', 'outside']},
    {'name': 'read_cut', 'fn': h_read, 'cfg': {'spc': 0, 'no_fat': True, 'sizes': [1024, 1536, 2560], 'firsts': [4, 6], 'cut': 1, 'base': 512}, 'bounds': 'a truncated image', 'expect': ['read 2', 'outside']},
    {'name': 'read_volsize', 'fn': h_read, 'cfg': {'spc': 0, 'no_fat': True, 'sizes': [512, 1024], 'firsts': [4, 6], 'base': 1024, 'volsize': 1 << 20}, 'bounds': 'a volume inside of an image', 'expect': ['read 1', 'read 2']},
    {'name': 'nosize', 'fn': h_nosize, 'cfg': {}, 'bounds': 'every first cluster', 'expect': ['refused']},
    {'name': 'regions', 'fn': h_regions, 'cfg': {}, 'bounds': 'three places of a boot region', 'expect': ['none', 'region 0', 'region 1', 'region 2']},
    {'name': 'open_1', 'fn': h_open, 'cfg': {'fats': 1}, 'bounds': 'every bitmap', 'expect': ['none', 'bitmap 0 of 0', 'bitmap 1 of 0']},
    {'name': 'open_2', 'fn': h_open, 'cfg': {'fats': 2}, 'bounds': 'every bitmap', 'expect': ['none', 'bitmap 0 of 0', 'bitmap 0 of 1', 'bitmap 1 of 1']},
    {'name': 'small', 'fn': h_small, 'cfg': {}, 'bounds': 'sizes of a volume', 'expect': ['refused', 'accepted']},
]
