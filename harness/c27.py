"""C27: metadata of shadow copies (start and control blocks, selection, chains of blocks)."""
import uuid
from dfir_ntfs import ShadowCopy
from harness.util import *
from harness.shadowutil import *

FILES = ['dfir_ntfs/ShadowCopy.py']
ASSUMPTIONS = ['Chains of up to 3 blocks at chosen positions, also cyclic, out of the image and with a damaged block.', 'Positions are below 2^63.']
KINDS = {'control': 2, 'diff': 3, 'location': 5, 'bitmap': 6}


def h_start(ctx):
    head = ctx.bytes('head', 16)
    sb = ctx.bytes('sb', 128)
    raw = pad(pad(head, 7680) + sb, 8192)
    sup = ctx.Or(head[3:7] == b'NTFS', head[3:7] == b'ReFS')
    ok = ctx.And(sb[0:16] == GUID, u32(sb, 20) == 1, u64(sb, 24) == 7680, u64(sb, 32) == 7680, u64(sb, 40) == 0)
    ctx.assume(ctx.Or(u64(sb, 48) == 0, u64(sb, 48) % BLK != 0, u64(sb, 48) < 1 << 40))
    try:
        p = ShadowCopy.StartBlock(raw)
    except ShadowCopy.InvalidVolume:
        ctx.outcome('not supported')
        ctx.check(ctx.Not(sup), 'a supported volume is refused')
        return
    except ShadowCopy.ShadowCopyException:
        ctx.outcome('invalid')
        ctx.check(ctx.And(sup, ctx.Not(ok)), 'a valid start block is refused')
        return
    ctx.outcome('valid')
    ctx.check(ctx.And(sup, ok), 'an invalid start block is accepted')
    ctx.check(ctx.And(p.get_max_diff_area_size() == u64(sb, 56), p.get_application_flags() == u64(sb, 96), p.get_free_space_precopy_percentage() == u64(sb, 104),
                      p.get_hot_blocks_precopy_percentage() == u64(sb, 112), p.get_hot_blocks_days() == u32(sb, 120), p.get_protection_flags() == u32(sb, 124), p.get_version() == u32(sb, 16)), 'fields of the start block')
    ctx.check(ctx.And(p.get_volume_guid() == uuid.UUID(bytes_le=sb[64:80]), p.get_storage_guid() == uuid.UUID(bytes_le=sb[80:96])), 'GUIDs')
    local = sb[64:80] == sb[80:96]
    got = p.is_storage_local()
    ctx.check(ctx.And(ctx.Implies(local, got), ctx.Implies(got, local)), 'storage location')
    try:
        first = p.get_first_control_block_offset()
    except ShadowCopy.StartBlockException:
        ctx.outcome('misaligned')
        ctx.check(u64(sb, 48) % BLK != 0, 'a valid position is refused')
        return
    ctx.check(ctx.And(first == u64(sb, 48), first % BLK == 0), 'position of the first control block')


def h_open(ctx):
    """A volume without shadow copies is told from a volume that is not supported."""
    n = ctx.choice('n', [0, 100, 8191, 8192])
    sig = ctx.choice('sig', [b'NTFS', b'ReFS', b'FAT3'])
    guid = ctx.choice('guid', [GUID, b'\0' * 16])
    raw = start(0, sig=sig)
    raw = raw[:7680] + guid + raw[7696:]
    try:
        p = ShadowCopy.ShadowParser(ctx.file(raw[:n]))
    except ShadowCopy.InvalidVolume:
        ctx.outcome('not supported')
        ctx.check(n == 8192 and sig == b'FAT3', 'InvalidVolume')
        return
    except ShadowCopy.ShadowCopiesDisabledException:
        ctx.outcome('disabled')
        ctx.check(n < 8192 or (sig != b'FAT3' and guid != GUID), 'ShadowCopiesDisabledException')
        return
    ctx.outcome('ok')
    ctx.check(n == 8192 and sig != b'FAT3' and guid == GUID, 'an invalid volume is accepted')
    ctx.check(len(list(p.shadows())) == 0, 'shadow copies that do not exist')


def h_items(ctx, lead=0):
    """The items of a control block."""
    kinds = [ctx.choice('kind%d' % k, [0, 1, 2, 3, 4]) for k in range(3)]
    body, want, stop = b''.join(pad(p32(1), 0x80) for k in range(lead)), [], None
    for k, kind in enumerate(kinds):
        raw = p32(kind) + ctx.bytes('item%d' % k, 124)
        body = body + raw
        if stop is not None:
            continue
        if kind == 0:
            stop = 'end'
        elif kind == 4:
            stop = 'invalid'
        elif kind == 2 and ctx.fork(u64(raw, 8) == 0):
            stop = 'invalid'
        elif kind in (2, 3):
            want.append((kind, raw))
    f = ctx.file(assemble({0: start(BLK), 1: block(2, 0, BLK, 0, body)}, 4))
    p = ShadowCopy.ShadowParser(f)
    got, bad = [], False
    try:
        for i in p.control_blocks[0].items():
            got.append(i)
    except ShadowCopy.ShadowCopyException:
        bad = True
    ctx.outcome('invalid' if bad else 'valid')
    ctx.check(bad == (stop == 'invalid'), 'validity of an item')
    ctx.check(len(got) == len(want), 'number of items')
    if len(got) != len(want):
        return
    for i, (kind, raw) in zip(got, want):
        ctx.check(i.get_store_guid() == uuid.UUID(bytes_le=raw[16:32]), 'GUID')
        if kind == 2:
            ctx.check(type(i) is ShadowCopy.ControlBlockItem2, 'type of an item')
            ctx.check(ctx.And(i.get_volume_size() == u64(raw, 8), i.get_stack_position() == u64(raw, 32), i.get_flags() == u64(raw, 40), i.get_snapshot_priority() == u8(raw, 4)), 'fields of an item')
        else:
            ctx.check(type(i) is ShadowCopy.ControlBlockItem3, 'type of an item')
            ctx.check(ctx.And(i.get_diff_area_block_offset() == u64(raw, 8), i.get_application_information_block_offset() == u64(raw, 32), i.get_location_description_block_offset() == u64(raw, 40),
                              i.get_bitmap_offset() == u64(raw, 48), i.get_file_reference() == u64(raw, 56), i.get_allocation_size() == u64(raw, 64), i.get_previous_bitmap_offset() == u64(raw, 72)), 'fields of an item')


def own_offset(ctx, k, wrong):
    """The position a block says it has."""
    if not wrong:
        return k * BLK
    own = ctx.int('own%d' % k, 0, 1 << 40) * BLK
    ctx.assume(own != k * BLK)
    return own


def h_control(ctx, two=False, rel=False):
    """A chain of control blocks, each with one shadow copy (in the storage volume: with the other half of it)."""
    first = ctx.choice('first', [0, 1, 2, 60])
    nxt = {k: ctx.choice('next%d' % k, [0, 1, 2, 3]) for k in (1, 2)}
    nxt[3] = 0
    good = {k: ctx.choice('good%d' % k, ['yes', 'offset', 'type']) if not rel else 'yes' for k in (2, 3)}
    good[1] = 'yes'
    blocks = {0: start(first * BLK)}
    info = {}
    for k in (1, 2, 3):
        size, ts = (k if rel or two is True else ctx.int('size%d' % k, 1, (1 << 64) - 1)), 132000000000000000 + k
        info[k] = (size, ts)
        off1 = 0
        if rel:
            off1 = ctx.int('rel%d' % k, 0, (1 << 64) - 1)
            if ctx.fork(off1 % BLK != 0):
                good[k] = 'type'
        body = item3(bytes([k]) * 16) if two is True else item2(bytes([k]) * 16, k, size, 0, ts)
        blocks[k] = block(3 if good[k] == 'type' and not rel else 2, off1, own_offset(ctx, k, good[k] == 'offset'), nxt[k] * BLK, body)
    if two == 'volume':  # The chain is on the volume, the storage volume is simple.
        blocks[0] = start(first * BLK, False)
        other = ctx.file(assemble({0: start(BLK, True, mine=STO_GUID), 1: block(2, 0, BLK, 0, item3(b'\1' * 16))}, 6))
    elif two:
        blocks[0] = start(first * BLK, True, mine=STO_GUID)
        vol = ctx.file(assemble({0: start(BLK, False), 1: block(2, 0, BLK, 0, item2(b'\1' * 16, 1, BLK))}, 6))
    f = ctx.file(assemble(blocks, 6))
    f.read_limit = 64
    want, k, seen, bad = [], first, set(), False
    while k and k not in seen:
        seen.add(k)
        if k not in good or good[k] == 'type':
            bad = True
            break
        if good[k] == 'offset':
            break
        want.append(k)
        k = nxt[k]
    try:
        if two == 'volume':
            p = ShadowCopy.ShadowParserTwoVolumes(f, other)
        else:
            p = ShadowCopy.ShadowParserTwoVolumes(vol, f) if two else ShadowCopy.ShadowParser(f)
    except ShadowCopy.ShadowCopyException:
        ctx.outcome('refused')
        ctx.check(bad, 'a valid chain is refused')
        return
    except ctx.ReadLimit:
        ctx.fail('a cyclic chain is followed without end')
        return
    ctx.outcome('%d' % len(want))
    ctx.check(not bad, 'an invalid control block is accepted')
    if two is True:
        ctx.check(len(p.control_blocks_storage) == len(want), 'number of control blocks')
        try:
            p.select_shadow(1)
        except ShadowCopy.ShadowCopyException:
            ctx.check(1 not in want, 'a shadow copy of the chain is not found')
        else:
            ctx.check(1 in want, 'a shadow copy that is not in the chain is found')
        return
    got = list(p.shadows())
    ctx.check(len(got) == len(want), 'number of shadow copies')
    for g, k in zip(got, want):
        ctx.check(ctx.And(g.stack_position == k, g.volume_size == info[k][0]), 'information about a shadow copy')
        ctx.check(g.store_guid == uuid.UUID(bytes_le=bytes([k]) * 16), 'GUID')


def h_select(ctx, two):
    """Selection by GUID and by stack position."""
    gs = [b'\1' * 16, b'\2' * 16, b'\3' * 16]
    twos = [(ctx.choice('g2%d' % k, gs[:2]), ctx.choice('pos%d' % k, [0, 1, 3])) for k in range(2)]
    threes = [ctx.choice('g3%d' % k, gs) for k in range(2)]
    c2, c3 = b'', b''
    for k, (g, pos) in enumerate(twos):
        c2 = c2 + item2(g, pos, (k + 1) * BLK)
    for k, g in enumerate(threes):
        c3 = c3 + item3(g)
    if two:
        img = (assemble({0: start(BLK, False), 1: block(2, 0, BLK, 0, c2)}, 4), assemble({0: start(BLK, True, mine=STO_GUID), 1: block(2, 0, BLK, 0, c3)}, 4))
    else:
        img = (assemble({0: start(BLK), 1: block(2, 0, BLK, 0, c2 + c3)}, 4), None)
    by = ctx.choice('by', ['guid', 'position'])
    if by == 'guid':
        g = ctx.choice('want', gs)
        key = uuid.UUID(bytes_le=g)
    else:
        key = ctx.choice('want', [0, 1, 2])
        match = [x for x, pos in twos if pos == key]
        g = match[-1] if match else None
        # two items at one position: either may be meant
        ctx.assume(len(set(match)) < 2)
    def status(g):
        n2, n3 = len([1 for x, _ in twos if x == g]), len([1 for x in threes if x == g])
        if n2 != n3 or n2 > 1:
            return 'invalid'
        return 'missing' if n2 == 0 else 'ok'
    st = status(g)
    if st == 'ok':
        # the stores above it have to be usable as well
        pos = [p for x, p in twos if x == g][0]
        up = [x for x, p in twos if p == pos + 1]
        ctx.assume(len(set(up)) < 2)
        if up and status(up[0]) == 'invalid':
            st = 'invalid'
    p = parser(ctx, img, two)
    try:
        p.select_shadow(key)
    except ShadowCopy.ShadowCopyNotFoundException:
        ctx.outcome('missing')
        ctx.check(st == 'missing', 'a shadow copy is not found')
        return
    except ShadowCopy.ShadowCopyException:
        ctx.outcome('invalid')
        ctx.check(st == 'invalid', 'a valid shadow copy is refused')
        return
    ctx.outcome('ok')
    ctx.check(st == 'ok', 'an invalid shadow copy is selected')
    size = [(k + 1) * BLK for k, (x, _) in enumerate(twos) if x == g]
    ctx.check(p.current_volume_size == size[0], 'not the shadow copy that was asked for')


def h_chain(ctx, what, two, field=None):
    """Bitmap, location and diff area chains of a store."""
    first = ctx.choice('first', [0, 2, 3])
    nxt = {k: ctx.choice('next%d' % k, [0, 2, 3, 4]) for k in (2, 3)}
    nxt[4] = 0
    good = {2: 'yes', 3: ctx.choice('good3', ['yes', 'offset', 'type']), 4: ctx.choice('good4', ['yes', 'offset', 'type', 'guid'])}
    kind = KINDS[what]
    meta, body = {}, {}
    for k in (2, 3, 4):
        if what == 'bitmap':
            b = ctx.bytes('map%d' % k, BLK - 0x80, array=True)
        elif what == 'location':
            b = p64(ctx.int('vol%d' % k, 1, (1 << 64) - 1)) + p64(ctx.int('sto%d' % k, 0, (1 << 64) - 1)) + p64(ctx.int('len%d' % k, 1, (1 << 64) - 1))
        else:
            b = entry(ctx.int('orig%d' % k, 0, 1 << 40) * BLK, 0, ctx.int('data%d' % k, 1, 1 << 40) * BLK, 0)
        body[k] = b
        meta[k] = block(kind + 1 if good[k] == 'type' else kind, 0, own_offset(ctx, k, good[k] == 'offset'), nxt[k] * BLK, b, b'\0' * 16 if good[k] == 'guid' else GUID)
    g = b'\1' * 16
    kw = {{'bitmap': 'bitmap', 'location': 'loc', 'diff': 'diff', 'previous': 'prev'}[field or what]: first * BLK}
    size = ctx.choice('size', [1, 5 * BLK + 1, 200000 * BLK]) if what == 'bitmap' else 5 * BLK
    c2, c3 = item2(g, 1, size), item3(g, **kw)
    if two:
        img = (assemble({0: start(BLK, False), 1: block(2, 0, BLK, 0, c2)}, 6), None)
        meta[0], meta[1] = start(BLK, True, mine=STO_GUID), block(2, 0, BLK, 0, c3)
        files = [ctx.file(img[0]), ctx.file(assemble(meta, 6))]
    else:
        meta[0], meta[1] = start(BLK), block(2, 0, BLK, 0, c2 + c3)
        files = [ctx.file(assemble(meta, 6))]
    for f in files:
        f.read_limit = 64
    want, k, seen, bad = [], first, set(), False
    while k and k not in seen:
        seen.add(k)
        if good[k] in ('type', 'guid'):
            bad = True
            break
        if good[k] == 'offset':
            break
        want.append(k)
        k = nxt[k]
    try:
        p = ShadowCopy.ShadowParserTwoVolumes(files[0], files[1]) if two else ShadowCopy.ShadowParser(files[0])
        p.select_shadow(1)
    except ShadowCopy.ShadowCopyException:
        ctx.outcome('refused')
        ctx.check(bad, 'a valid chain is refused')
        return
    except ctx.ReadLimit:
        ctx.fail('a cyclic chain is followed without end')
        return
    ctx.outcome('%d' % len(want))
    ctx.check(not bad, 'an invalid block is accepted')
    if what == 'bitmap':
        got = p.current_previous_bitmap if field == 'previous' else p.current_bitmap
        n = min((size + BLK * 8 - 1) // (BLK * 8), len(want) * (BLK - 0x80))
        ctx.check(len(got) == n, 'length of the bitmap')
        if n == 0 or len(got) != n:
            return
        j = ctx.int('j', 0, n - 1)
        exp = ctx.byte_at(body[want[0]], ctx.If(j < BLK - 0x80, j, 0))
        for i in range(1, len(want)):
            lo = i * (BLK - 0x80)
            inside = ctx.And(j >= lo, j < lo + BLK - 0x80)
            exp = ctx.If(inside, ctx.byte_at(body[want[i]], ctx.If(inside, j - lo, 0)), exp)
        ctx.check(ctx.byte_at(got, j) == exp, 'content of the bitmap')
    elif what == 'location':
        got = p.current_location_description_items
        ctx.check(len(got) == len(want), 'number of items')
        for x, k in zip(got, want):
            ctx.check(ctx.And(x.volume_offset == u64(body[k], 0), x.store_offset == u64(body[k], 8), x.size == u64(body[k], 16)), 'location')
    else:
        got = p.current_diff_area
        ctx.check(len(got) == len(want), 'number of entries')
        for a, b in zip(got, got[1:]):
            ctx.check(a.original_volume_offset <= b.original_volume_offset, 'order of the entries')
        for k in want:
            ctx.check(ctx.Or(*[ctx.And(x.original_volume_offset == u64(body[k], 0), x.data_block_volume_offset == u64(body[k], 16)) for x in got]), 'an entry is missing')


def h_table(ctx, lead=0):
    """Validation of one table of entries."""
    raw = [ctx.bytes('entry%d' % k, 32) for k in range(2)]
    head = b''.join(entry((k + 1) * BLK, k, (k + 1) * BLK, 4 if k % 2 else 0) for k in range(lead))
    t = block(3, 0, BLK, 0, head + raw[0] + raw[1])
    ctx.check(len(t) == BLK, 'harness')
    try:
        got = ShadowCopy.DiffAreaTable(t).get_diff_area()
    except ShadowCopy.ShadowBlockException:
        got = None
    want = []
    for r in raw:
        fl = u32(r, 24)
        if ctx.fork(ctx.Or(u64(r, 0) % BLK != 0, u64(r, 16) % BLK != 0, fl >= 256, fl % 4 == 3)):
            ctx.outcome('invalid')
            ctx.check(got is None, 'an invalid entry is accepted')
            return
        if ctx.fork(ctx.And(u64(r, 16) == 0, fl == 0)):
            break
        if ctx.fork((fl // 4) % 2 == 0):
            want.append(r)
    ctx.check(got is not None, 'valid entries are refused')
    if got is None:
        return
    ctx.outcome('%d' % len(want))
    first = (lead + 1) // 2
    ctx.check(len(got) == first + len(want), 'number of entries')
    ctx.check([x.original_volume_offset for x in got[:first]] == [(k + 1) * BLK for k in range(0, lead, 2)], 'entries')
    for x, r in zip(got[first:], want):
        ctx.check(ctx.And(x.original_volume_offset == u64(r, 0), x.data_block_offset_in_store == u64(r, 8), x.data_block_volume_offset == u64(r, 16), x.flags == u32(r, 24), x.allocation_bitmap == u32(r, 28)), 'entry')


def h_app(ctx, two):
    app = ctx.bytes('app', BLK - 0x80, array=True)
    at = ctx.choice('at', [0, 3])
    good = ctx.bool('good')
    meta = {3: block(4, 0, ctx.If(good, 3 * BLK, 4 * BLK), 0, app)}
    g = b'\1' * 16
    c2, c3 = item2(g, 1, BLK), item3(g, app=at * BLK)
    if two:
        img = (assemble({0: start(BLK, False), 1: block(2, 0, BLK, 0, c2)}, 6), None)
        meta[0], meta[1] = start(BLK, True, mine=STO_GUID), block(2, 0, BLK, 0, c3)
        img = (img[0], assemble(meta, 6))
    else:
        meta[0], meta[1] = start(BLK), block(2, 0, BLK, 0, c2 + c3)
        img = (assemble(meta, 6), None)
    p = parser(ctx, img, two)
    p.select_shadow(1)
    got = p.current_application_information
    if at and ctx.fork(good):
        ctx.outcome('present')
        same_bytes(ctx, got, lambda i: ctx.byte_at(app, i), BLK - 0x80, ctx.int('j', 0, BLK - 0x81), 'application information')
    else:
        ctx.outcome('absent')
        ctx.check(len(got) == 0, 'application information that does not exist')


CASES = [
    {'name': 'start', 'fn': h_start, 'cfg': {}, 'bounds': 'every start block', 'expect': ['not supported', 'invalid', 'valid', 'misaligned']},
    {'name': 'open', 'fn': h_open, 'cfg': {}, 'bounds': 'volumes with and without shadow copies', 'expect': ['not supported', 'disabled', 'ok']},
    {'name': 'items', 'fn': h_items, 'cfg': {}, 'bounds': 'three items of every kind with arbitrary fields', 'expect': ['valid', 'invalid']},
    {'name': 'items_full', 'fn': h_items, 'cfg': {'lead': 124}, 'bounds': 'the last three items of a control block with 127 items', 'expect': ['valid', 'invalid']},
    {'name': 'control_vol2', 'fn': h_control, 'cfg': {'two': 'volume'}, 'bounds': 'chains of three control blocks in the volume when there is a storage volume, also cyclic and damaged', 'expect': ['0', '1', '2', '3', 'refused']},
    {'name': 'table_full', 'fn': h_table, 'cfg': {'lead': 506}, 'bounds': 'the last two entries of a table with 508 entries', 'expect': ['0', '1', '2', 'invalid']},
    {'name': 'control_two', 'fn': h_control, 'cfg': {'two': True}, 'bounds': 'chains of three control blocks in the storage volume, also cyclic and damaged', 'expect': ['0', '1', '2', '3', 'refused']},
    {'name': 'control_rel', 'fn': h_control, 'cfg': {'rel': True}, 'bounds': 'chains of three control blocks, any relative offsets', 'expect': ['0', '1', '2', '3', 'refused']},
    {'name': 'control', 'fn': h_control, 'cfg': {}, 'bounds': 'chains of three control blocks, also cyclic and damaged', 'expect': ['0', '1', '2', '3', 'refused']},
    {'name': 'table', 'fn': h_table, 'cfg': {}, 'bounds': 'two arbitrary table entries', 'expect': ['0', '1', '2', 'invalid']},
]
for two in (False, True):
    t = '_two' if two else ''
    w = ', a separate storage volume' if two else ''
    CASES += [
        {'name': 'select' + t, 'fn': h_select, 'cfg': {'two': two}, 'bounds': 'two pairs of items with every combination of GUIDs and positions' + w, 'expect': ['ok', 'missing', 'invalid']},
        {'name': 'app' + t, 'fn': h_app, 'cfg': {'two': two}, 'bounds': 'every application information' + w, 'expect': ['present', 'absent']},
        {'name': 'bitmap' + t, 'fn': h_chain, 'cfg': {'what': 'bitmap', 'two': two}, 'bounds': 'chains of up to three blocks, also cyclic and damaged' + w, 'expect': ['0', '1', '2', '3', 'refused']},
        {'name': 'previous' + t, 'fn': h_chain, 'cfg': {'what': 'bitmap', 'two': two, 'field': 'previous'}, 'bounds': 'chains of up to three blocks, also cyclic and damaged' + w, 'expect': ['0', '1', '2', '3', 'refused']},
        {'name': 'location' + t, 'fn': h_chain, 'cfg': {'what': 'location', 'two': two}, 'bounds': 'chains of up to three blocks, also cyclic and damaged' + w, 'expect': ['0', '1', '2', '3', 'refused']},
        {'name': 'diff' + t, 'fn': h_chain, 'cfg': {'what': 'diff', 'two': two}, 'bounds': 'chains of up to three blocks, also cyclic and damaged' + w, 'expect': ['0', '1', '2', '3', 'refused']},
    ]
