"""C42: the FAT/exFAT command line parser: a row for every entry that the library finds, with its fields in the right columns."""
import datetime
from dfir_ntfs.addons import FAT, exFAT
from harness.util import *
from harness.c31 import short, long_entry
from harness.c32 import boot, table
from harness.c34 import primary, stream, name_entry
from harness.c35 import volume, bitmap_entry, EOC

FILES = ['fat_parser', 'dfir_ntfs/addons/FAT.py', 'dfir_ntfs/addons/exFAT.py']
ASSUMPTIONS = ['The file system parsers report the entries as decided by C28-C36; the script is run as a whole, with stand-ins for its arguments, its files and the csv writer (the cells it is given are compared).',
               'Images with up to 6 directory entries; fields of one or more of them are arbitrary.']
FAT.WARN_FUNC = lambda *a: None
HEAD_FAT = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C/CH timestamp', 'File size', 'Is encrypted', 'Short name (Python bytes)']
HEAD_EXFAT = ['Is deleted', 'Is directory', 'Path', 'M timestamp', 'A timestamp', 'C timestamp', 'M/A/C TZ (minutes)', 'File size', 'Is encrypted']


def stamp(t):
    if t is None:
        return 'N/A'
    return t.strftime('%Y-%m-%d') if type(t) is datetime.date else t.strftime('%Y-%m-%d %H:%M:%S.%f')


def yes(ctx, b):
    if b is None:
        return '?'
    return 'Y' if ctx.fork(b) else 'N'


def zone(ctx, z):
    if z is None:
        return '?'
    z = ctx.concrete(z)
    return ('+' if z > 0 else '') + str(z * 15)


def rows_fat(ctx, items):
    out, label = [], False
    for i in items:
        if type(i) is FAT.OrphanLongEntry:
            out.append(['?', '?', i.long_name_partial + ' (Partial Name)'] + ['?'] * 6)
            continue
        path = i.short_name if i.long_name is None else i.long_name
        if not label and not ctx.fork(i.is_deleted) and ctx.fork(ctx.And((i.attributes // 8) % 2 == 1, i.attributes % 64 != 15, (i.attributes // 16) % 2 == 0)):
            label = True
            path = i.short_name + ' (Volume Label)'
            ctx.outcome('label')
        out.append([yes(ctx, i.is_deleted), yes(ctx, i.is_directory), path, stamp(i.mtime), stamp(i.atime), stamp(i.ctime), i.size, yes(ctx, i.is_encrypted), i.short_name_raw])
    return out


def rows_exfat(ctx, items):
    out = []
    for i in items:
        if type(i) is exFAT.VolumeLabelEntry:
            ctx.outcome('label')
            out.append(['N', 'N', i.volume_label + ' (Volume Label)', '?', '?', '?', '?/?/?', '0', 'N'])
        elif type(i) is exFAT.OrphanEntry:
            out.append(['?', '?', i.name_partial + ' (Partial Name)', '?', '?', '?', '?/?/?', '?', '?'])
        else:
            out.append([yes(ctx, i.is_deleted), yes(ctx, i.is_directory), i.name, stamp(i.mtime), stamp(i.atime), stamp(i.ctime), zone(ctx, i.mtz) + '/' + zone(ctx, i.atz) + '/' + zone(ctx, i.ctz), i.size, yes(ctx, i.is_encrypted)])
    return out


def modes(ctx):
    ctx.pin()
    ctx.merge()
    ctx.text()


def report(ctx, img, base, kind):
    """Runs the script and the library."""
    full = b'\xaa' * base + img
    lib = (FAT if kind == 'fat' else exFAT).FileSystemParser(ctx.file(full), base)
    items = list(lib.walk())
    want = rows_fat(ctx, items) if kind == 'fat' else rows_exfat(ctx, items)
    outs, code = ctx.script('fat_parser', ['in', str(base), 'out'], {'in': ctx.file(full)})
    ctx.check('out' in outs, 'there is no output file')
    got = outs['out'].rows
    ctx.outcome('%d' % len(want))
    ctx.check(outs['out'].closed, 'the output file is not closed')
    same_rows(ctx, got, [HEAD_FAT if kind == 'fat' else HEAD_EXFAT] + want)


def fat_image(ctx, root, dirs):
    """FAT12: a root directory and up to four directories in the clusters from 2."""
    pad = lambda b: b + b'\0' * (512 - len(b))
    return boot(12, 1, 5) + pad(table(12, [0xFF8, 0xFFF] + [0xFFF] * 5)) + pad(root) + b''.join([pad(dirs.get(c, b'')) for c in range(2, 7)])


def h_fat(ctx, what, base=0):
    modes(ctx)
    sym = lambda k, name, n: ctx.bytes(name, n) if what == k else b'\0' * n
    first = ctx.choice('first', [b'A', b'\xe5', b'\x05']) if what in ('attr', 'name') else b'A'
    attr = ctx.choice('attr', [0x20, 0x10, 0x08, 0x28, 0x00, 0x0B]) if what == 'attr' else 0x20
    name = first + (ctx.bytes('name', 2) if what == 'name' else b'B1') + b'     TXT'
    nt = ctx.choice('nt', [0, 1, 8, 0x18]) if what == 'attr' else 0
    rest = p8(nt) + sym('ctime', 'tenth', 1) + sym('ctime', 'ct', 2) + sym('ctime', 'cd', 2) + sym('atime', 'ad', 2) + b'\0\0' + sym('mtime', 'mt', 2) + sym('mtime', 'md', 2) + b'\0\0' + sym('attr', 'size', 4)
    if what == 'name':
        ctx.assume(ctx.And(name[1] >= 0x20, name[1] < 0x7F, name[2] >= 0x20, name[2] < 0x7F))
    report(ctx, fat_image(ctx, short(name, attr, rest) + short(b'LAST    BIN', 0x20, b'\0' * 16 + p32(7)), {}), base, 'fat')


def h_fat_labels(ctx):
    """Several labels: the first one that is not deleted is shown as the label."""
    modes(ctx)
    root = b''
    for k in range(4):
        mark = ctx.choice('mark%d' % k, [b'L', b'\xe5'])
        attr = ctx.choice('attr%d' % k, [0x08, 0x20])
        root = root + short(mark + b'ABEL %d    ' % k, attr, b'\0' * 16 + p32(ctx.int('size%d' % k, 0, 0xFFFFFFFF)))
    report(ctx, fat_image(ctx, root, {}), 0, 'fat')


def h_fat_tree(ctx):
    """Long names, orphan long names and directories, allocated and deleted."""
    modes(ctx)
    def lname(text, n):
        raw = text.encode('utf-16le')
        raw = raw + b'\0\0' + b'\xff' * 26
        return raw[:26]
    s = b'LONGNA~1TXT'
    ck = 0
    for c in s:
        ck = ((ck >> 1) + ((ck & 1) << 7) + c) & 0xFF
    u = ctx.int('char', 0x41, 0x7A)
    ctx.assume(u != 0x5C)
    raw = p16(u) + lname('ong name', 0)[:24]
    kind = ctx.choice('kind', ['good', 'orphan', 'deleted'])
    root = b''
    if kind == 'deleted':
        root = root + long_entry(0xE5, raw, ck) + short(b'\xe5' + s[1:])
    else:
        root = root + long_entry(0x41, raw, ck if kind == 'good' else (ck + 1) & 0xFF) + short(s)
    d = ctx.choice('dir', [b'D', b'\xe5'])
    root = root + short(d + b'IR        ', 0x10, b'\0' * 14 + p16(3) + p32(0)) + short(b'VOLUME     ', 0x08)
    dot = short(b'.          ', 0x10, b'\0' * 14 + p16(3) + p32(0)) + short(b'..         ', 0x10)
    inner = dot + long_entry(0x41, lname('inside', 0), 1) + short(b'F       BIN', ctx.choice('attr', [0x20, 0x08]), b'\0' * 16 + p32(ctx.int('size', 0, 0xFFFFFFFF)))
    report(ctx, fat_image(ctx, root, {3: inner}), 0, 'fat')


def exfat_image(root, dirs):
    fat = p32(0xFFFFFFF8) + b''.join([p32(EOC) for c in range(1, 9)])
    return volume(0, fat, [bitmap_entry(0, 3) + root, b'\x7f' + b'\0' * 511] + [dirs.get(c, b'') for c in range(4, 9)])


def eset(ctx, name, attr=b'\x20\0', times=b'\0' * 12, ms=b'\0\0', zones=b'\0\0\0', size=b'\0' * 8, first=b'\0' * 4, deleted=False, efs=b'\0\0'):
    units = [ord(c) for c in name]
    d = 0 if deleted else 0x80
    img = primary(2, attr=attr, times=times, ms=ms, zones=zones, typ=p8(5 + d)) + stream(1, len(units), first=first, size=size, typ=p8(0x40 + d), efs=efs) + name_entry(units, p8(0x41 + d))
    if d:
        img = img[:2] + p16(exFAT.EntrySetChecksum(img)) + img[4:]
    return img


def h_exfat(ctx, what, base=0):
    modes(ctx)
    sym = lambda k, name, n: ctx.bytes(name, n) if what == k else b'\0' * n
    order = {'ctime': 0, 'mtime': 1, 'atime': 2}
    times = b''
    for k in ('ctime', 'mtime', 'atime'):
        times = times + (ctx.bytes(k, 4) if what == k else p32(0x58214000 + order[k] * 0x210000))
    ms = sym('ctime', 'cms', 1) + sym('mtime', 'mms', 1)
    zones = b''
    for k in range(3):
        zones = zones + (p8(ctx.choice('zone%d' % k, [0, 0x7F, 0x80, 0x84, 0xC4, 0xFC, 0xBF])) if what == 'zones' else b'\0')
    attr = p16(ctx.choice('attr', [0, 0x20, 0x10, 0x01])) if what == 'attr' else b'\x20\0'
    size = p64(ctx.int('size', 0, (1 << 63) - 1)) if what == 'size' else b'\0' * 8
    gone = ctx.choice('deleted', [False, True]) if what in ('attr', 'size') else False
    first = p32(4) if what == 'attr' else (p32(5) if what == 'size' else b'\0' * 4)
    if what == 'attr':
        size = p64(512)
    efs = ctx.choice('efs', [b'\0\0', b'\x01\0', b'\0\x01']) if what == 'attr' else b'\0\0'
    root = eset(ctx, 'one', attr, times, ms, zones, size, first, gone, efs) + eset(ctx, 'last')
    report(ctx, exfat_image(root, {}), base, 'exfat')


def h_exfat_tree(ctx):
    modes(ctx)
    root = b''
    if ctx.choice('label', [True, False]):
        root = root + b'\x83' + name_entry([ord(c) for c in 'VOL'], b'\x83', 3)[1:]
    if ctx.choice('orphan', [True, False]):
        root = root + name_entry([ord(c) for c in 'part'], b'\x41')
    gone = ctx.choice('deleted', [True, False])
    root = root + eset(ctx, 'dir', b'\x10\0', size=p64(512), first=p32(5), deleted=gone)
    inner = eset(ctx, 'f', size=p64(ctx.int('size', 0, 1 << 60)), first=p32(6)) + eset(ctx, 'g', deleted=ctx.choice('gone', [True, False]))
    report(ctx, exfat_image(root, {5: inner}), 0, 'exfat')


def h_none(ctx):
    """Not a file system, wrong arguments."""
    how = ctx.choice('how', ['arguments', 'offset', 'many'])
    argv = {'arguments': ['in', '0'], 'offset': ['in', 'zero', 'out'], 'many': ['in', '0', 'out', 'more']}[how]
    outs, code = ctx.script('fat_parser', argv, {'in': ctx.file(b'\0' * 512)})
    ctx.outcome(how)
    ctx.check(not outs, 'an output file is written without valid arguments')


CASES = [{'name': 'usage', 'fn': h_none, 'cfg': {}, 'bounds': 'three wrong command lines', 'expect': ['arguments', 'offset', 'many']},
         {'name': 'fat_labels', 'fn': h_fat_labels, 'cfg': {}, 'bounds': 'four entries, each a label or a file, allocated or deleted', 'expect': ['4', 'label']},
         {'name': 'fat_tree', 'fn': h_fat_tree, 'cfg': {}, 'bounds': 'a long name, an orphan long name, a directory', 'expect': ['7', '8', 'label']},
         {'name': 'exfat_tree', 'fn': h_exfat_tree, 'cfg': {}, 'bounds': 'a label, an orphan name, a directory, allocated and deleted', 'expect': ['3', '4', '5', 'label']}]
for _w in ('attr', 'name', 'ctime', 'atime', 'mtime'):
    CASES.append({'name': 'fat_' + _w, 'fn': h_fat, 'cfg': {'what': _w, 'base': 512 if _w == 'name' else 0}, 'bounds': 'one entry with arbitrary fields (%s) and another one' % _w, 'expect': ['2']})
for _w in ('attr', 'size', 'ctime', 'mtime', 'atime', 'zones'):
    CASES.append({'name': 'exfat_' + _w, 'fn': h_exfat, 'cfg': {'what': _w, 'base': 1024 if _w == 'zones' else 0}, 'bounds': 'one set with arbitrary fields (%s) and another one' % _w, 'expect': ['2']})
