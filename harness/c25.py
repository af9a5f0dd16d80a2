"""C25: which data a block of a shadow copy comes from."""
from dfir_ntfs import ShadowCopy
from harness.util import *
from harness.shadowutil import *

FILES = ['dfir_ntfs/ShadowCopy.py']
ASSUMPTIONS = ['Volumes of 16 blocks, up to two stores, up to three table entries per store.', 'The allocation bitmap of an overlay is arbitrary in three of its bits.']


def check_block(ctx, p, chain, blk, two, subs):
    got = p.translate_exact_offset(blk * BLK)
    ctx.check(len(got) == 32, 'number of 512-byte blocks')
    for i in subs:
        want = resolve(ctx, chain, 0, blk, i)
        g = got[i]
        if two:
            store, pos = g
        else:
            store, pos = None, g
        ctx.outcome(want[0])
        if want[0] == 'null':
            ctx.check(pos is None, 'an unused block is not empty')
            continue
        ctx.check(pos is not None, 'a block with data is empty')
        if pos is None:
            return
        ctx.check(pos == want[1], 'wrong source of a block')
        if two:
            ctx.check(bool(store) == (want[0] == 'diff'), 'wrong volume')


def mk_entries(ctx, name, spec):
    out = []
    for k, (origs, stores, flags, bits) in enumerate(spec):
        o = ctx.choice('%s%do' % (name, k), origs) * BLK
        s = ctx.choice('%s%ds' % (name, k), stores) * BLK
        fl = ctx.choice('%s%df' % (name, k), flags)
        d = ctx.int('%s%dd' % (name, k), 1, 1 << 40) * BLK
        b = 0
        if fl & 2:
            b = bits
            if bits == 'sym':
                b = 0x00F00000 + ctx.If(ctx.bool('b0'), 1, 0) + ctx.If(ctx.bool('b7'), 0x80, 0) + ctx.If(ctx.bool('b31'), 0x80000000, 0)
        out.append((o, s, d, fl, b))
    return out


def h_map(ctx, specs, blocks, two=False, maps=None, prev=(), size=None, subs=(0, 7, 20, 31), split=False):
    chain = []
    for k, spec in enumerate(specs):
        fl = ctx.choice('store%d' % k, maps[k][1]) if maps else 0
        bm = None
        pv = None
        if maps and maps[k][0]:
            bm = [ctx.bool('u%d' % i) if i in maps[k][0] else False for i in range(16)]
        if k in prev:
            pv = [ctx.bool('v%d' % i) if i in maps[k][0] else False for i in range(16)]
        chain.append(Store(k + 1, mk_entries(ctx, 'e%d_' % k, spec), bm, pv, fl, split=split))
    img = build(ctx, list(reversed(chain)) if len(chain) > 1 else chain, 16, 16, two)
    p = parser(ctx, img, two, size)
    p.select_shadow(1)
    blk = ctx.choice('blk', blocks)
    check_block(ctx, p, chain, blk, two, subs)


def h_reselect(ctx, specs, order, blocks, two=False, maps=None, subs=(0, 7)):
    """Several shadow copies are looked at with one parser, and several blocks of each: what was selected before does not matter."""
    chain = []
    for k, spec in enumerate(specs):
        fl = ctx.choice('store%d' % k, maps[k][1]) if maps else 0
        bm = [ctx.bool('u%d_%d' % (k, i)) if i in maps[k][0] else False for i in range(16)] if maps and maps[k][0] else None
        chain.append(Store(k + 1, mk_entries(ctx, 'e%d_' % k, spec), bm, None, fl))
    img = build(ctx, list(reversed(chain)), 16, 16, two)
    p = parser(ctx, img, two)
    for sel in order:
        p.select_shadow(sel)
        for blk in blocks:
            check_block(ctx, p, chain[sel - 1:], blk, two, subs)


R, F, O = [0], [1], [2]
CASES = []


def add(name, specs, blocks, bounds, expect, **k):
    for two in (False, True):
        tier = k.get('tier', 'quick')
        CASES.append({'name': name + ('_two' if two else ''), 'fn': h_map, 'cfg': dict(specs=specs, blocks=blocks, two=two, **{a: b for a, b in k.items() if a != 'tier'}), 'bounds': bounds + (', a separate storage volume' if two else ''), 'expect': expect, 'tier': tier})


add('regular', [[([9, 10], [3], [0, 4, 8, 0x10, 0x80], 0), ([9, 10], [4], [0, 0x20, 0x40], 0)]], [8, 9, 10], 'two regular entries', ['vol', 'diff'])
add('overlay', [[([9], [3], [2, 0], 'sym'), ([9, 10], [4], [2, 0], 'sym')]], [9, 10], 'overlays and regular entries in any order', ['vol', 'diff'])
add('unused', [[([9], [3], [0, 2, 6], 0x80)]], [9, 10], 'the bitmaps of unused blocks', ['vol', 'diff', 'null'], maps=[([9, 10], [0, 0x400])], prev=[0])
add('forward', [[([9], [9, 10, 11], [1], 0), ([10, 9], [3], [0], 0)]], [9, 10, 11], 'a forwarder and a regular entry', ['vol', 'diff'], maps=[([9, 10], [0x400])])
add('forward_after', [[([9, 10], [3], [0], 0), ([9], [9, 10], [1], 0), ([10], [4], [0, 2], 0x81)]], [9, 10], 'a forwarder between regular entries', ['vol', 'diff'])
add('forward_over', [[([9], [10], [1], 0), ([9, 10], [3], [2], 'sym')]], [9, 10], 'a forwarder and an overlay', ['vol', 'diff'])
add('next', [[([9, 10], [3], [0, 2], 'sym')], [([9, 10], [3], [0, 2], 'sym')]], [9, 10], 'two stores', ['vol', 'diff'], subs=(0, 31))
add('next_forward', [[([9], [10], [1], 0)], [([9, 10], [11, 3], [0, 1, 2], 0x80)]], [9, 10, 11], 'two stores, a forwarder to the next store', ['vol', 'diff'])
add('next_unused', [[([9], [10], [0, 1, 2], 0x80)], [([9, 10], [11], [0, 2], 0x1)]], [9, 10], 'two stores with bitmaps', ['vol', 'diff', 'null'], maps=[([9, 10], [0, 0x400]), ([10], [0, 0x400])], subs=(0, 7))
add('three', [[([9], [10], [1, 2], 0x80)], [([9, 10], [11], [1, 2], 0x81)], [([9, 10, 11], [3], [0, 2], 1)]], [9, 10], 'three stores', ['vol', 'diff'], subs=(0, 7))
add('three_unused', [[([9], [10], [0, 1, 2], 0x80)], [([9, 10], [11], [0, 1, 2], 0x81)], [([9, 10, 11], [3], [0, 2], 1)]], [9, 10], 'three stores with bitmaps', ['vol', 'diff', 'null'], maps=[([9, 10], [0, 0x400]), ([10], [0, 0x400]), ([9, 11], [0, 0x400])], subs=(0, 7), tier='thorough')
add('chain', [[([9], [9, 10, 11], [0, 1, 2], 0x81), ([9, 10], [9, 11], [0, 1, 2], 0x80), ([9, 10, 11], [9, 10], [0, 1, 2, 5], 1)]], [9, 10, 11], 'three entries of any kind', ['vol', 'diff'], subs=(0, 7), tier='thorough')
add('forward_twice', [[([9], [10], [1], 0), ([10], [3], [0], 0), ([10], [4], [0, 2], 0x81)]], [9, 10], 'the target of a forwarder has two entries', ['vol', 'diff'])
add('forward_over_unused', [[([9], [10], [1], 0), ([9, 10], [3], [2], 'sym')]], [9, 10], 'a forwarder and an overlay, blocks that may be unused', ['vol', 'diff', 'null'], maps=[([9, 10], [0x400])], subs=(0, 7))
for two in (False, True):
    for order in ((1, 2, 1), (2, 1, 2)):
        CASES.append({'name': 'reselect%d%s' % (order[0], '_two' if two else ''), 'fn': h_reselect, 'cfg': {'specs': [[([9], [4], [0], 0), ([9, 10], [3], [0, 2], 0x80)], [([9, 10], [11], [0, 1], 0)]], 'order': order, 'blocks': [9, 10, 11], 'two': two, 'maps': [([10, 11], [0, 0x400]), ([9, 11], [0x400])], 'subs': (0, 7)}, 'bounds': 'two stores selected in turn, three blocks of each', 'expect': ['vol', 'diff', 'null']})
        CASES.append({'name': 'reselect_three%d%s' % (order[0], '_two' if two else ''), 'fn': h_reselect, 'cfg': {'specs': [[([9], [10], [0, 1], 0)], [([9], [11], [0, 1], 0)], []], 'order': order, 'blocks': [9, 10, 11], 'two': two, 'maps': [([10, 11], [0x400]), ([9, 11], [0x400]), ([], [0])], 'subs': (0, 31)}, 'bounds': 'the first two of three stores selected in turn, three blocks of each', 'expect': ['vol', 'diff', 'null']})
add('split', [[([9], [10], [1], 0), ([9, 10], [3, 9], [0, 1, 2], 0x80), ([10, 9], [4], [0, 2], 0x81)]], [9, 10], 'three entries, each in a table block of its own', ['vol', 'diff'], subs=(0, 7), split=True)
add('split_delete', [[([9], [3], [0, 2], 0x80), ([9, 10], [4], [0], 0), ([9], [9], [0, 1, 2], 0x81)]], [9, 10], 'three entries, each in a table block of its own, the last one may remove others', ['vol', 'diff'], subs=(0, 7), split=True)
