"""Images with shadow copies."""
from dfir_ntfs import ShadowCopy
from harness.util import *

BLK = 0x4000
GUID = b'\x6B\x87\x08\x38\x76\xC1\x48\x4E\xB7\xAE\x04\x04\x6E\x6C\xC7\x52'
VOL_GUID = b'V' * 16
STO_GUID = b'S' * 16


def pad(b, n):
    return b + b'\0' * (n - len(b))


def block(kind, off1, off2, off3, body=b'', guid=GUID):
    return pad(pad(guid + p32(1) + p32(kind) + p64(off1) + p64(off2) + p64(off3), 0x80) + body, BLK)


def start(first, local=True, sig=b'NTFS', mine=VOL_GUID):
    other = mine if local else STO_GUID
    sb = GUID + p32(1) + p32(1) + p64(7680) + p64(7680) + p64(0) + p64(first) + p64(0) + mine + other
    return pad(pad(b'\xeb\x52\x90' + sig + b'    ', 7680) + sb, 8192)


def item2(guid, pos, size, flags=0, ts=0, prio=0):
    return pad(p32(2) + p8(prio) + b'\0' * 3 + p64(size) + guid + p64(pos) + p64(flags) + p64(ts), 0x80)


def item3(guid, diff=0, app=0, loc=0, bitmap=0, ref=0, alloc=0, prev=0):
    return pad(p32(3) + b'\0' * 4 + p64(diff) + guid + p64(app) + p64(loc) + p64(bitmap) + p64(ref) + p64(alloc) + p64(prev), 0x80)


def entry(orig, in_store, data, flags, bits=0):
    return p64(orig) + p64(in_store) + p64(data) + p32(flags) + p32(bits)


def assemble(blocks, n):
    """Block number -> content; everything else is zero."""
    out, pos = b'', 0
    for k in sorted(blocks):
        out = out + b'\0' * (k * BLK - pos) + blocks[k]
        pos = k * BLK + len(blocks[k])
    return out + b'\0' * (n * BLK - pos)


class Store:
    """One store: its entries as (original block, offset in store, data block, flags, bits), bitmaps as lists of bits."""

    def __init__(self, pos, entries, bitmap=None, prev=None, flags=0, size=None, split=False):
        self.split = split
        self.pos, self.entries, self.bitmap, self.prev, self.flags, self.size = pos, entries, bitmap, prev, flags, size
        self.guid = bytes([0x30 + pos]) * 16

    def bit(self, ctx, blk):
        """Unused in the current and in the previous bitmap (a missing bitmap or position is 'not set', a missing previous one is ignored)."""
        a = self.bitmap[blk] if self.bitmap is not None and blk < len(self.bitmap) else False
        if self.prev is None or blk >= len(self.prev):
            return a
        return ctx.And(a, self.prev[blk])


def bits_to_bytes(ctx, bits):
    out = b''
    for k in range(0, len(bits), 8):
        v = 0
        for i, b in enumerate(bits[k:k + 8]):
            v = v + ctx.If(b, 1 << i, 0)
        out = out + p8(v)
    return out


def build(ctx, stores, n, nblocks, two=False, extra=None):
    """(volume image, storage image or None): metadata in the blocks 1.. of the volume that stores it."""
    meta, vol = {}, {}
    c2, c3 = b'', b''
    free = 2
    for s in stores:
        def put_block(kind, body, nxt=0):
            nonlocal free
            k = free
            free += 1
            meta[k] = block(kind, 0, k * BLK, nxt, body)
            return k * BLK
        if s.split:  # A table block for each entry (the last one comes first on the volume).
            diff = 0
            for e in reversed(s.entries):
                diff = put_block(3, entry(*e), diff)
        else:
            body = b''
            for e in s.entries:
                body = body + entry(*e)
            diff = put_block(3, body)
        bm = put_block(6, bits_to_bytes(ctx, s.bitmap)) if s.bitmap is not None else 0
        pv = put_block(6, bits_to_bytes(ctx, s.prev)) if s.prev is not None else 0
        c2 = c2 + item2(s.guid, s.pos, s.size if s.size is not None else n * BLK, s.flags)
        c3 = c3 + item3(s.guid, diff=diff, bitmap=bm, prev=pv)
    for k, v in (extra or {}).items():
        (meta if not two or k[0] == 's' else vol)[k[1]] = v
    if two:
        meta[0] = start(BLK, True, mine=STO_GUID)
        meta[1] = block(2, 0, BLK, 0, c3)
        vol[0] = start(BLK, False)
        vol[1] = block(2, 0, BLK, 0, c2)
        return assemble(vol, nblocks), assemble(meta, nblocks)
    meta[0] = start(BLK)
    meta[1] = block(2, 0, BLK, 0, c2 + c3)
    return assemble(meta, nblocks), None


def parser(ctx, images, two, size=None, base=0):
    junk = b'\x11' * base
    if two:
        return ShadowCopy.ShadowParserTwoVolumes(ctx.file(junk + images[0]), ctx.file(junk + images[1]), base, size, base)
    return ShadowCopy.ShadowParser(ctx.file(junk + images[0]), base, size)


# ---- the oracle --------------------------------------------------------------------------------

def effective(store):
    """The entries of a store with the rules for forwarders applied: (original, in store, data, flags, bits) in the order of the table."""
    out, fwd = [], {}
    for o, st, d, fl, bits in store.entries:
        if d == 0 and fl == 0:
            break
        if fl & 4:
            continue
        if o in fwd and not fl & 2:
            new = fwd.pop(o)
            o = new
        if fl & 1:
            if o != st:
                fwd[st] = o
            else:
                out = [e for e in out if e[3] & 3 or e[0] != o]
        out.append((o, st, d, fl, bits))
    return out


def resolve(ctx, chain, k, blk, i, overlays=True, forwarded=False):
    """Where the 512-byte block i of the block comes from, seen from store k: ('null',) / ('vol', pos) / ('diff', pos)."""
    off = blk * BLK
    orig = ('vol', off + i * 512)
    if k == len(chain):
        s = chain[-1]
        if forwarded or not s.flags & 0x400 or not ctx.fork(s.bit(ctx, blk)):
            return orig
        return ('null',)
    s = chain[k]
    ent = [e for e in effective(s) if e[0] == off]
    regular = [e for e in ent if not e[3] & 2 and not (e[3] & 1 and e[0] != e[1])]
    forward = [e for e in ent if e[3] & 1 and e[0] != e[1]]
    over = [e for e in ent if e[3] & 2]
    nulls = bool(s.flags & 0x400)
    newer = any(not e[3] & 2 for t in chain[k + 1:] for e in effective(t) if e[0] == off)
    last = k + 1 == len(chain)
    if not regular and not forwarded and not last and not newer and nulls and not (forward and not (over and overlays)):
        target = any(e[3] & 1 and e[1] == off and ctx.fork(s.bit(ctx, e[1] // BLK)) for e in effective(s))
        if target:
            return ('null',)
    if overlays:
        for e in reversed(over):
            if ctx.fork((e[4] >> i) & 1 == 1):
                return ('diff', e[2] + i * 512)
    if regular:
        return ('diff', regular[-1][2] + i * 512)
    if forward:
        return resolve(ctx, chain, k + 1, forward[-1][1] // BLK, i, False, True)
    if over and overlays:
        if newer:
            return resolve(ctx, chain, k + 1, blk, i, False, False)
        return ('null',) if nulls and ctx.fork(s.bit(ctx, blk)) else orig
    if not over and nulls and not last and not newer and ctx.fork(s.bit(ctx, blk)):
        return ('null',)
    return resolve(ctx, chain, k + 1, blk, i, False, False)
