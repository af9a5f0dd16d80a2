"""C44: the mounted view of a shadow copy, and the list of shadow copies."""
import errno
import stat
import types
from dfir_ntfs import ShadowCopy, Attributes
from harness.util import *
from harness.shadowutil import *
from harness.c26 import image, want_byte, N

FILES = ['vsc_mount', 'dfir_ntfs/ShadowCopy.py']
ASSUMPTIONS = ['llfuse is represented by a stand-in with its interface (a base class, attribute objects, FUSEError, init, main, close): the kernel part sends the requests from main and calls destroy at the end.',
               'Volumes of 12 blocks of 16384 bytes, one store; up to 3 requests.']


class FUSEError(Exception):
    def __init__(self, errno):
        Exception.__init__(self, errno)
        self.errno = errno


class Bag:
    pass


def fuse(serve):
    """The llfuse module; serve(fs) is what the kernel asks for."""
    m = types.SimpleNamespace(ROOT_INODE=1, Operations=type('Operations', (), {}), EntryAttributes=Bag, StatvfsData=Bag, FUSEError=FUSEError, default_options=frozenset(['nonempty', 'big_writes']))
    m.fs, m.calls = None, []

    def init(fs, where, options=None):
        m.fs = fs
        m.where = where
        m.calls.append('init')

    def main(workers=None, *a):
        m.calls.append('main')
        m.fs.init()
        serve(m.fs)

    def close(unmount=True):
        m.calls.append('close')
        m.fs.destroy()
    m.init, m.main, m.close = init, main, close
    return m


def refused(ctx, f, number=None):
    try:
        f()
    except FUSEError as e:
        ctx.check(number is None or e.errno == number, 'error number')
        return True
    ctx.fail('a request that cannot be served is not refused')


def is_image(ctx, a, size):
    ctx.check(stat.S_ISREG(a.st_mode), 'the image is not a regular file')
    ctx.check(a.st_size == size, 'size of the image')
    ctx.check(a.st_ino == 2, 'inode of the image')
    ctx.check(ctx.And(a.st_blocks * 512 >= size, a.st_blocks * 512 < size + 512), 'number of blocks')


def is_root(ctx, a):
    ctx.check(stat.S_ISDIR(a.st_mode), 'the root is not a directory')
    ctx.check(a.st_ino == 1, 'inode of the root')


def run(ctx, mode, img, two, voff, soff, serve):
    m = fuse(serve)
    files = {'vol': ctx.file(b'\x11' * voff + img[0])}
    if two:
        files['sto'] = ctx.file(b'\x22' * soff + img[1])
    argv = [mode, 'vol'] + (['sto', str(voff), str(soff)] if two else [str(voff)]) + ['1', '/']
    outs, code = ctx.script('vsc_mount', argv, files, {'llfuse': m})
    ctx.check(m.calls == ['init', 'main', 'close'], 'the file system is not served and closed')
    ctx.check(m.where == '/', 'mount point')
    ctx.check(code == 0, 'exit code')


def h_requests(ctx, two, kinds):
    """A sequence of requests with arbitrary inodes, names, flags and handles; nothing depends on the ones before."""
    size = ctx.int('size', 1, 1 << 50)
    img = build(ctx, [Store(1, [], size=size)], N, N, two)

    def serve(fs):
        h, d = fs.open(2, 0, None), fs.opendir(1, None)
        ctx.check(h != d, 'the handles of the image and of the directory are the same')
        for k, opts in enumerate(kinds):
            what = ctx.choice('what%d' % k, opts)
            ctx.outcome(what)
            if what == 'getattr':
                i = ctx.int('inode%d' % k, 0, 1 << 32)
                if ctx.fork(i == 2):
                    is_image(ctx, fs.getattr(i, None), size)
                elif ctx.fork(i == 1):
                    is_root(ctx, fs.getattr(i, None))
                else:
                    refused(ctx, lambda: fs.getattr(i, None))
            elif what == 'lookup':
                i = ctx.int('inode%d' % k, 0, 1 << 32)
                name = ctx.choice('name%d' % k, [b'image.raw', b'other', b'image.ra', b'image.raw2', b'IMAGE.RAW', b''])
                if ctx.fork(i == 1) and name == b'image.raw':
                    is_image(ctx, fs.lookup(i, name, None), size)
                else:
                    refused(ctx, lambda: fs.lookup(i, name, None), errno.ENOENT)
            elif what == 'open':
                i, flags = ctx.int('inode%d' % k, 0, 1 << 32), u32(ctx.bytes('flags%d' % k, 4), 0)
                writes = ctx.fork(ctx.Or(flags % 4 != 0, (flags // 0x400) % 2 == 1))
                if writes:
                    refused(ctx, lambda: fs.open(i, flags, None), errno.EROFS)
                elif ctx.fork(i == 2):
                    ctx.check(fs.open(i, flags, None) == h, 'handle of the image')
                else:
                    refused(ctx, lambda: fs.open(i, flags, None), errno.ENOENT)
            elif what == 'opendir':
                i = ctx.int('inode%d' % k, 0, 1 << 32)
                if ctx.fork(i == 1):
                    ctx.check(fs.opendir(i, None) == d, 'handle of the directory')
                else:
                    refused(ctx, lambda: fs.opendir(i, None))
            elif what == 'readdir':
                fh, off = ctx.int('fh%d' % k, 0, 1 << 32), ctx.int('off%d' % k, 0, 1 << 32)
                if ctx.fork(fh != d):
                    refused(ctx, lambda: list(fs.readdir(fh, off)))
                else:
                    got = list(fs.readdir(fh, off))
                    if ctx.fork(off == 0):
                        ctx.check(len(got) == 1, 'number of directory entries')
                        name, attr, nxt = got[0]
                        ctx.check(name == b'image.raw', 'name of the image')
                        is_image(ctx, attr, size)
                        ctx.check(nxt > 0 and not list(fs.readdir(d, nxt)), 'the directory does not end')
                    elif ctx.fork(off == 1):
                        ctx.check(not got, 'the entry is listed twice')
            elif what == 'read':
                fh = ctx.int('fh%d' % k, 0, 1 << 32)
                ctx.assume(fh != h)
                refused(ctx, lambda: fs.read(fh, 0, 512))
            elif what == 'access':
                ctx.check(fs.access(ctx.choice('inode%d' % k, [1, 2]), ctx.int('mode%d' % k, 0, 7), None), 'no access')
            elif what == 'release':
                fs.release(h)
                fs.releasedir(d)
            elif what == 'statfs':
                s = fs.statfs(None)
                ctx.check(s.f_bsize > 0 and s.f_bfree == 0, 'free space in a read-only file system')
            else:
                i, n = ctx.int('inode%d' % k, 0, 1 << 32), b'image.raw'
                refused(ctx, {'create': lambda: fs.create(1, n, i, i, None), 'link': lambda: fs.link(i, 1, n, None), 'mkdir': lambda: fs.mkdir(1, n, i, None), 'mknod': lambda: fs.mknod(1, n, i, 0, None),
                              'rename': lambda: fs.rename(1, n, 1, b'x', None), 'rmdir': lambda: fs.rmdir(1, n, None), 'setattr': lambda: fs.setattr(i, Bag(), Bag(), h, None), 'symlink': lambda: fs.symlink(1, n, b'x', None),
                              'unlink': lambda: fs.unlink(1, n, None), 'write': lambda: fs.write(h, i, b'data')}[what], errno.EROFS)
    run(ctx, '--mount-two' if two else '--mount', img, two, 512, 1024, serve)


def h_read(ctx, two, voff, places, sizes, alt=False):
    """Two reads of the image, in any order, with another request in between."""
    size = 12 * BLK - 700
    img, content = image(ctx, two, size)

    def serve(fs):
        h = fs.open(2, 0, None)
        for k in range(2):
            at, n = ctx.choice('at%d' % k, places), ctx.choice('n%d' % k, sizes)
            got = fs.read(h, at, n)
            want = min(n, max(size - at, 0))
            ctx.check(len(got) == want, 'number of bytes read')
            if len(got) != want:
                return
            ctx.outcome('data' if want else 'end')
            if want == 0:
                continue
            j = ctx.int('j%d' % k, 0, want - 1)
            pos = at + j
            w = want_byte(ctx, content, two, img[0], pos)
            if alt:
                blk, o = pos // BLK, pos % BLK
                text = ctx.If(blk == 10, ctx.byte_at(b'EMPTY           ', o % 16), ctx.byte_at(b'ORIGINAL        ', o % 16))
                over = ctx.Or(o < 1024, o >= 31 * 512)
                w = ctx.If(blk == 8, ctx.byte_at(content[6], o), ctx.If(ctx.And(blk == 9, over), ctx.byte_at(content[7], o), text))
            ctx.check(ctx.byte_at(got, j) == w, 'content')
            if k == 0 and ctx.choice('between', [False, True]):
                is_image(ctx, fs.getattr(2, None), size)
                fs.release(h)
                list(fs.readdir(fs.opendir(1, None), 0))
    run(ctx, '--mount-two' if two else ('--mount-altfill' if alt else '--mount'), img, two, voff, voff // 2, serve)


def h_list(ctx):
    ctx.pin()
    ctx.text()
    kind = ctx.choice('kind', ['enabled', 'disabled', 'invalid'])
    stores = [Store(1, [], size=12 * BLK), Store(2, [], size=12 * BLK)]
    img = build(ctx, stores, N, N)[0]
    times = []
    if kind == 'enabled':
        # The timestamps of the two items of the catalogue.
        for k, s in enumerate(stores):
            t = ctx.int('time%d' % k, 0, 0xFFFFFF) + 0x01D6123456000000 if k == 0 else 0x01D5000000000001
            at = BLK + 0x80 + 0x80 * k
            img = img[:at] + item2(s.guid, s.pos, 12 * BLK, 0, t) + img[at + 0x80:]
            times.append(t)
        want = ['Shadow copies are enabled'] + ['  Stack position: %d, timestamp (UTC): ' % (k + 1) + str(Attributes.DecodeFiletime(u64(p64(t), 0))) for k, t in enumerate(times)]
    elif kind == 'disabled':
        img = img[:7680] + b'\0' * 512 + img[8192:]
        want = ['Shadow copies are disabled']
    else:
        img = img[:3] + b'FAT3' + img[7:]
        want = ['Not a valid volume']
    voff = ctx.choice('voff', [0, 512])
    outs, code = ctx.script('vsc_mount', ['--list', 'vol', str(voff)], {'vol': ctx.file(b'\x33' * voff + img)}, {'llfuse': fuse(None)})
    ctx.outcome(kind)
    got = outs.stdout.lines()
    ctx.check(len(got) == len(want), 'number of lines')
    for a, b in zip(got, want):
        ctx.check(a == b, 'a line of the list')


def h_usage(ctx):
    bad = [[], ['--list'], ['--list', 'vol'], ['--list', 'vol', 'x'], ['--mount', 'vol', '0', '1'], ['--mount', 'vol', '0', 'x', '/'], ['--mount', 'vol', 'x', '1', '/'], ['--mount', 'vol', '0', '1', '/nowhere/at/all'], ['--other', 'vol', '0', '1', '/'],
           ['--mount', 'none', '0', '1', '/'], ['--mount-two', 'vol', 'none', '0', '0', '1', '/'], ['--mount-two', 'vol', 'vol', '0', '0', '/'], ['--mount-two', 'vol', 'vol', '0', 'x', '1', '/'], ['--list', 'none', '0'], ['--list', 'vol', '0', '1']]
    argv = bad[ctx.choice('which', list(range(len(bad))))]
    m = fuse(None)
    ctx.outcome('usage')
    ctx.script('vsc_mount', argv, {'vol': ctx.file(b'\0' * 8192)}, {'llfuse': m})
    ctx.check(m.calls == [], 'a file system is mounted without valid arguments')


ASK = ['getattr', 'lookup', 'open', 'opendir', 'readdir', 'read', 'access', 'release', 'statfs']
CHANGE = ['create', 'link', 'mkdir', 'mknod', 'rename', 'rmdir', 'setattr', 'symlink', 'unlink', 'write']
PLACES = [0, 5 * BLK + 3, 8 * BLK - 1, 8 * BLK + 100, 9 * BLK + 1000, 10 * BLK + 512, 12 * BLK - 701, 12 * BLK]
CASES = [{'name': 'usage', 'fn': h_usage, 'cfg': {}, 'bounds': 'fifteen wrong command lines', 'expect': ['usage']},
         {'name': 'list', 'fn': h_list, 'cfg': {}, 'bounds': 'two shadow copies, one with an arbitrary timestamp; no shadow copies; another file system', 'expect': ['enabled', 'disabled', 'invalid']}]
for _t in (False, True):
    _s = '_two' if _t else ''
    CASES += [{'name': 'requests' + _s, 'fn': h_requests, 'cfg': {'two': _t, 'kinds': [ASK + CHANGE]}, 'bounds': 'one request, every inode, handle, flags; every volume size', 'expect': ASK + CHANGE},
              {'name': 'sequences' + _s, 'fn': h_requests, 'cfg': {'two': _t, 'kinds': [['write', 'setattr', 'unlink', 'release', 'readdir'], ['getattr', 'lookup', 'open', 'opendir', 'readdir', 'read']]}, 'bounds': 'two requests, every inode, handle, flags; every volume size', 'expect': ['write', 'open']},
              {'name': 'read' + _s, 'fn': h_read, 'cfg': {'two': _t, 'voff': 512, 'places': PLACES, 'sizes': [512, 1500]}, 'bounds': 'two reads at eight places, every content', 'expect': ['data', 'end']}]
CASES += [{'name': 'read_alt', 'fn': h_read, 'cfg': {'two': False, 'voff': 0, 'places': PLACES[1:], 'sizes': [1500], 'alt': True}, 'bounds': 'two reads at seven places, alternate fill, every content', 'expect': ['data', 'end']},
          {'name': 'read_more', 'fn': h_read, 'cfg': {'two': False, 'voff': 1024, 'places': PLACES, 'sizes': [0, 1, 40000]}, 'bounds': 'two reads at eight places, sizes up to 40000, every content', 'expect': ['data', 'end']}]
