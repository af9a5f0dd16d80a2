"""C29: the file allocation table of FAT12/16/32 volumes: elements and chains of clusters."""
from dfir_ntfs.addons import FAT
from harness.util import *

FILES = ['dfir_ntfs/addons/FAT.py']
ASSUMPTIONS = ['Chains: tables of up to 7 elements with arbitrary values; element reads: volumes of arbitrary size with an arbitrary content, tables of 512, 1024 and 1536 bytes.']
EOC = {12: 0xFF8, 16: 0xFFF8, 32: 0x0FFFFFF8}
FAT.WARN_FUNC = lambda *a: None


def value(ctx, typ, byte, base, number):
    """The element at 'number', from single bytes."""
    if typ == 32:
        o = base + number * 4
        return byte(o) + byte(o + 1) * 0x100 + byte(o + 2) * 0x10000 + (byte(o + 3) % 16) * 0x1000000
    if typ == 16:
        o = base + number * 2
        return byte(o) + byte(o + 1) * 0x100
    pair, odd = number // 2, number % 2
    o = base + pair * 3
    even_v = byte(o) + (byte(o + 1) % 16) * 0x100
    odd_v = byte(o + 1) // 16 + byte(o + 2) * 16
    return ctx.If(odd == 1, odd_v, even_v)


def end(typ, number):
    """The number of bytes of the table needed for an element."""
    return number * 4 + 4 if typ == 32 else number * 2 + 2 if typ == 16 else number + number // 2 + 2


def h_element(ctx, typ, method):
    size = ctx.choice('fatsize', [512, 1024, 1536])
    off = ctx.choice('offset', [0, 512, 4096])
    total = ctx.int('total', 0, 8192)
    vol = ctx.volume('vol', total)
    last = ctx.int('last', 0, 2000)
    number = ctx.int('number', 0, 2000)
    fat = FAT.FAT(vol, off, size, last, typ)
    need = end(typ, number)
    inside = ctx.And(need <= size, number <= last, off + need <= total)
    if method == 'allocated':
        got = fat.is_allocated(number)
        if got is None:
            ctx.outcome('unknown')
            ctx.check(ctx.Not(inside), 'the state of a valid cluster is not known')
            return
        ctx.outcome('known')
        ctx.check(inside, 'the state of an invalid cluster')
        ctx.check(got == (value(ctx, typ, vol.byte, off, number) != 0), 'state of a cluster')
        return
    try:
        got = fat.get_element(number)
    except FAT.FileAllocationTableException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(inside), 'a valid element is refused')
        return
    ctx.outcome('read')
    ctx.check(inside, 'an element outside of the table')
    ctx.check(got == value(ctx, typ, vol.byte, off, number), 'value of an element')


def h_flags(ctx, typ):
    raw = ctx.bytes('raw', 8)
    fat = FAT.FAT(ctx.file(raw + b'\0' * 504), 0, 512, 3, typ)
    e1 = value(ctx, typ, lambda i: raw[i], 0, 1)
    ctx.check(fat.get_bpb_media() == raw[0], 'media type')
    d, h = fat.is_volume_dirty(), fat.are_hard_errors_detected()
    ctx.outcome('flags')
    if typ == 12:
        ctx.check(d is None and h is None, 'flags that do not exist')
        return
    bit = 0x08000000 if typ == 32 else 0x8000
    ctx.check(ctx.And(d == ((e1 // bit) % 2 == 0), h == ((e1 // (bit // 2)) % 2 == 0)), 'flags')


def h_new(ctx):
    off, size, typ = ctx.int('off', 0, 1 << 40), ctx.int('size', 0, 1 << 40), ctx.choice('type', [12, 16, 32])
    valid = ctx.And(off % 512 == 0, size >= 512, size % 512 == 0)
    try:
        FAT.FAT(ctx.file(b''), off, size, 10, typ)
    except FAT.FileAllocationTableException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(valid), 'a valid table is refused')
        return
    ctx.outcome('accepted')
    ctx.check(valid, 'an invalid table is accepted')


def follow(ctx, typ, raw, last, first):
    """(chain, ended properly)"""
    eoc = EOC[typ]
    if first in (0, 1):
        return [], True
    if first == eoc - 1:
        return [], False
    chain = [first]
    cur = first
    while True:
        if cur > last:
            return chain, False
        v = value(ctx, typ, lambda i: raw[i], 0, cur)
        nxt = None
        for k in chain:
            if ctx.fork(v == k):
                return chain, True
        for k in range(2, last + 1):
            if k not in chain and ctx.fork(v == k):
                nxt = k
                break
        if nxt is None:
            if ctx.fork(v == eoc - 1):
                return chain + [None], True
            if ctx.fork(ctx.Or(v >= eoc, v < 2)):
                return chain, True
            return chain, False
        chain = chain + [nxt]
        cur = nxt


def h_chain(ctx, typ, last, firsts):
    n = (last + 2) * 4 if typ == 32 else (last + 2) * 2
    raw = ctx.bytes('raw', n)
    img = raw + b'\0' * (512 - n)
    first = ctx.choice('first', firsts)
    want, good = follow(ctx, typ, img, last, first)
    fat = FAT.FAT(ctx.file(img), 0, 512, last, typ)
    try:
        got = fat.chain(first)
    except FAT.FileAllocationTableException:
        ctx.outcome('refused')
        ctx.check(not good, 'a valid chain is refused')
        return
    ctx.check(good, 'a chain that leaves the table is accepted')
    ctx.outcome('bad cluster' if want and want[-1] is None else 'chain of %d' % len(want))
    ctx.check(len(got) == len(want), 'length of a chain')
    for g, w in zip(got, want):
        if w is None:
            ctx.check(g is None, 'a bad cluster is not marked')
        else:
            ctx.check(g is not None and g == w, 'a cluster of a chain')


CASES = [{'name': 'new', 'fn': h_new, 'cfg': {}, 'bounds': 'every position and size below 2^40', 'expect': ['refused', 'accepted']}]
for t in (12, 16, 32):
    e = EOC[t]
    CASES += [
        {'name': 'element_%d' % t, 'fn': h_element, 'cfg': {'typ': t, 'method': 'element'}, 'bounds': 'every element number, last cluster and volume size', 'expect': ['read', 'refused']},
        {'name': 'allocated_%d' % t, 'fn': h_element, 'cfg': {'typ': t, 'method': 'allocated'}, 'bounds': 'every element number, last cluster and volume size', 'expect': ['known', 'unknown']},
        {'name': 'flags_%d' % t, 'fn': h_flags, 'cfg': {'typ': t}, 'bounds': 'every value of the first elements', 'expect': ['flags']},
        {'name': 'chain_%d' % t, 'fn': h_chain, 'cfg': {'typ': t, 'last': 5, 'firsts': [0, 1, 2, 3, 5, 6, e - 1, e]}, 'bounds': 'every table of 6 elements, 8 first clusters', 'expect': ['refused', 'bad cluster', 'chain of 0', 'chain of 1', 'chain of 4']},
        {'name': 'chain_%d_long' % t, 'fn': h_chain, 'cfg': {'typ': t, 'last': 6, 'firsts': [2, 4]}, 'bounds': 'every table of 7 elements, 2 first clusters', 'expect': ['refused', 'bad cluster', 'chain of 5'], 'tier': 'thorough'},
    ]
