"""C38: WSL metadata."""
from dfir_ntfs import WSL
from harness.util import *

FILES = ['dfir_ntfs/WSL.py']
ASSUMPTIONS = ['Lists of extended attributes of up to 3 blocks (the offsets, lengths and contents of the first two are arbitrary within a buffer of up to 48 bytes).']
US = 1000000


def h_header(ctx, cls, sizes):
    n = ctx.choice('n', sizes)
    head = ctx.bytes('head', 4)
    raw = (head + b'\0' * n)[:n]
    try:
        (WSL.LXATTRB if cls == 'B' else WSL.LXXATTR)(raw)
    except ValueError:
        ctx.outcome('refused')
        ok = False
    else:
        ctx.outcome('accepted')
        ok = True
    size = n == 56 if cls == 'B' else n >= 12
    want = ctx.fork(ctx.And(size, *([head[0] == 0, head[1] == 0, head[2] == 1, head[3] == 0])))
    ctx.check(ok == want, 'a valid header is refused' if want else 'an invalid header is accepted')


def h_fields(ctx):
    raw = b'\0\0\1\0' + ctx.bytes('raw', 16) + b'\0' * 36
    x = WSL.LXATTRB(raw)
    ctx.outcome('fields')
    ctx.check(ctx.And(x.get_mode() == u32(raw, 4), x.get_uid() == u32(raw, 8), x.get_gid() == u32(raw, 12), x.get_rdev() == u32(raw, 16)), 'fields')


def h_time(ctx, which):
    k = {'a': 0, 'm': 1, 'ch': 2}[which]
    s, ns = ctx.bytes('s', 8), ctx.bytes('ns', 4)
    raw = b'\0\0\1\0' + b'\0' * 16 + b'\0' * 4 * k + ns + b'\0' * (8 - 4 * k) + b'\0' * 8 * k + s + b'\0' * (16 - 8 * k)
    x = WSL.LXATTRB(raw)
    got = {'a': x.get_atime, 'm': x.get_mtime, 'ch': x.get_chtime}[which]()
    sec, nano = u64(raw, 32 + 8 * k), u32(raw, 20 + 4 * k)
    last = 253402300799  # 9999-12-31 23:59:59
    if got is None:
        ctx.outcome('none')
        ctx.check(ctx.Or(sec > last - 5), 'a valid timestamp is refused')
        return
    ctx.outcome('time')
    ctx.check(sec <= last, 'an invalid timestamp is decoded')
    us = (got - WSL.datetime.datetime(1970, 1, 1)) // WSL.datetime.timedelta(microseconds=1)
    err = (us - sec * US) * 1000 - nano  # at most one microsecond because of rounding
    ctx.check(ctx.And(err >= -1000, err <= 1000), 'timestamp')
    others = [f() for n, f in (('a', x.get_atime), ('m', x.get_mtime), ('ch', x.get_chtime)) if n != which]
    ctx.check(all(o == WSL.datetime.datetime(1970, 1, 1) for o in others), 'other timestamps')


def h_list(ctx, total, names):
    """The first block at 4, the next ones where the offsets tell."""
    raw = b'\0\0\1\0' + ctx.bytes('raw', total - 4)
    nexts = [0, 1, 8, 9, 12, 16, 20, 0xFFFFFFFF]
    want, pos = [], 4
    steps = 0
    while pos < total and steps < 4:
        steps += 1
        if pos + 4 > total:
            break
        off = u32(raw, pos)
        o = None
        for c in nexts:
            if ctx.fork(off == c):
                o = c
                break
        ctx.assume(o is not None)
        end = min(total, pos + o) if o else total
        if end - pos < 9:
            break
        n = raw[pos + 6]
        k = None
        for c in names:
            if ctx.fork(n == c):
                k = c
                break
        ctx.assume(k is not None)
        if k == 0:
            break
        lo = min(end, pos + 7 + k)
        size = u16(raw, pos + 4)
        room = end - lo
        v = room
        for c in range(room):
            if ctx.fork(size == c):
                v = c
                break
        want.append((raw[pos + 7:lo], raw[lo:lo + v]))
        if not o:
            break
        pos += o
    got = list(WSL.LXXATTR(raw).extended_attributes())
    ctx.outcome('%d' % len(want))
    ctx.check(len(got) == len(want), 'number of extended attributes')
    for g, w in zip(got, want):
        ctx.check(len(g[0]) == len(w[0]) and len(g[1]) == len(w[1]), 'length of an extended attribute')
        ctx.check(ctx.And(g[0] == w[0], g[1] == w[1]), 'extended attribute')


CASES = [
    {'name': 'header_b', 'fn': h_header, 'cfg': {'cls': 'B', 'sizes': [0, 4, 55, 56, 57]}, 'bounds': 'every header', 'expect': ['accepted', 'refused']},
    {'name': 'header_x', 'fn': h_header, 'cfg': {'cls': 'X', 'sizes': [0, 3, 11, 12, 40]}, 'bounds': 'every header', 'expect': ['accepted', 'refused']},
    {'name': 'fields', 'fn': h_fields, 'cfg': {}, 'bounds': 'every value', 'expect': ['fields']},
    {'name': 'list', 'fn': h_list, 'cfg': {'total': 24, 'names': [0, 1, 255]}, 'bounds': 'every list of 24 bytes with listed offsets and lengths of names', 'expect': ['0', '1', '2']},
    {'name': 'list28', 'fn': h_list, 'cfg': {'total': 28, 'names': [0, 1, 3, 255]}, 'bounds': 'every list of 28 bytes with listed offsets and lengths of names', 'tier': 'thorough', 'expect': ['0', '1', '2']},
]
for w in ('a', 'm', 'ch'):
    CASES.append({'name': 'time_' + w, 'fn': h_time, 'cfg': {'which': w}, 'bounds': 'every timestamp', 'expect': ['time', 'none']})
