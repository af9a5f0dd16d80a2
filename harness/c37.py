"""C37: the MoveTable (tracking.log)."""
import uuid
from dfir_ntfs import MoveTable
from dfir_ntfs.Attributes import DecodeFiletime, DecodeGUIDTime
from harness.util import *

FILES = ['dfir_ntfs/MoveTable.py']
ASSUMPTIONS = ['Files of up to 3 log sectors (4 entries each, 33 for sectors of 4096 bytes) with arbitrary types of the entries; entries with arbitrary fields are decoded one by one.', 'Machine IDs have up to 2 arbitrary characters; the code pages are data of the Python runtime.', 'FILETIME and GUID timestamps are decoded as decided by C10.']
SIG = b'\xEC\xA7\x43\x66\xFE\xEF\xD1\x11\xB2\xAE\x00\xC0\x4F\xB9\x38\x6D'


def machine(ctx, n):
    """A machine ID field: n arbitrary characters, then letters, a null byte (or none) and other bytes."""
    raw = ctx.bytes('machine', n)
    tail = ctx.choice('tail', [b'\0' + b'Z' * (15 - n), b'AB\0' + b'\xff' * (13 - n), b'A' * (16 - n)])
    return raw + tail


def cut(ctx, raw):
    for i in range(16):
        if ctx.fork(raw[i] == 0):
            return raw[:i]
    return raw


def text(ctx, raw, got):
    """The text of a machine ID."""
    if all(ctx.fork(raw[i] < 128) for i in range(len(raw))):
        ctx.outcome('plain')
        ctx.check(len(got) == len(raw) and ctx.And(*[ord(got[i]) == raw[i] for i in range(len(raw))]), 'machine ID')
        return
    s1 = raw.decode('cp866')
    if ctx.fork(ctx.Or(*[raw[i] == c for i in range(len(raw)) for c in (0x81, 0x8D, 0x8F, 0x90, 0x9D)])):
        ctx.outcome('one')
        want = s1
    else:
        ctx.outcome('two')
        want = '"' + s1 + '" (cp-866), "' + raw.decode('windows-1252') + '" (windows-1252)'
    ctx.check(len(got) == len(want) and ctx.And(*[ord(got[i]) == ord(want[i]) for i in range(len(want))]), 'machine ID')


def h_header(ctx, n):
    size = ctx.choice('size', [511, 512, 1024, 4096])
    body = ctx.bytes('body', 24)
    m = machine(ctx, n)
    ext = ctx.bytes('ext', 76)
    raw = SIG + body + m + ext
    raw = raw + b'\0' * (size - len(raw))
    try:
        h = MoveTable.Header(raw)
    except ValueError:
        ctx.outcome('refused')
        ctx.check(size not in (512, 4096), 'a valid header is refused')
        return
    ctx.check(size in (512, 4096), 'a header of a wrong size is accepted')
    ctx.check(ctx.And(h.get_unknown_16() == u32(raw, 16), h.get_flags() == u32(raw, 20), h.get_unknown_24() == u32(raw, 24)), 'fields of a header')
    f = h.is_log_flushed()
    w = raw[20] % 2 == 1
    ctx.check(ctx.And(ctx.Implies(f, w), ctx.Implies(w, f)), 'flag of a header')
    e = h.get_expansion_data()
    ctx.check(ctx.And(e.lowest_log_entry_index_present == u32(raw, 28), e.highest_log_entry_index_present == u32(raw, 32), e.file_size == u32(raw, 36)), 'expansion data')
    x = h.get_extended_header()
    ctx.check(x.volume_object_id.bytes_le == raw[56:72], 'volume object ID')
    got = [x.unknown_32, x.unknown_timestamp_int_40, x.unknown_timestamp_int_48, x.unknown_flags_56, x.unknown_state_60, x.unknown_log_entry_index_64, x.unknown_log_entry_index_68, x.unknown_log_entry_index_72, x.unknown_log_entry_index_76, x.unknown_log_entry_index_80, x.unknown_log_entry_index_84, x.unknown_log_entry_index_88]
    want = [u64(raw, 72 + 8 * i) for i in range(3)] + [u32(raw, 96 + 4 * i) for i in range(9)]
    ctx.check(ctx.And(*[g == v for g, v in zip(got, want)]), 'extended header')
    text(ctx, cut(ctx, m), x.machine_id)


def h_signature(ctx):
    pos = ctx.choice('pos', list(range(16)))
    v = ctx.int('v', 0, 255)
    raw = SIG[:pos] + p8(v) + SIG[pos + 1:] + b'\0' * 496
    try:
        MoveTable.Header(raw)
    except ValueError:
        ctx.outcome('refused')
        ctx.check(v != SIG[pos], 'a valid signature is refused')
        return
    ctx.outcome('accepted')
    ctx.check(v == SIG[pos], 'an invalid signature is accepted')


def version1(ctx, raw):
    """The time of a GUID of version 1 (None: another one)."""
    if ctx.fork(ctx.And(raw[7] // 16 == 1, raw[8] // 64 == 2)):
        return uuid.UUID(bytes_le=raw).time
    return None


def h_entry(ctx, what):
    same = ctx.bytes('same', 16) if what == 'same' else None
    b = lambda k, name, n: same if same is not None and k.startswith('guid') else ctx.bytes(name, n) if what == k else b'\0' * n
    m = machine(ctx, 2) if what == 'machine' else b'M' * 16
    raw = b('ints', 'head', 8) + p32(ctx.int('type', 0, 0xFFFFFFFF) if what == 'ints' else 2) + b('ints', 'index', 8) + b('guid0', 'g0', 16) + b('ids', 'g1', 16) + b('guid1', 'g2', 16) + m + b('ids', 'g3', 16) + b('guid2', 'g4', 16) + b('time', 'ts', 4) + b('ints', 'tail', 4)
    try:
        e = MoveTable.LogEntry(raw)
    except NotImplementedError:
        ctx.outcome('refused')
        ctx.check(ctx.And(u32(raw, 8) != 1, u32(raw, 8) != 2), 'a valid type is refused')
        return
    ctx.check(ctx.Or(u32(raw, 8) == 1, u32(raw, 8) == 2), 'an invalid type is accepted')
    ctx.check(ctx.And(e.get_next_log_entry_index() == u32(raw, 0), e.get_previous_log_entry_index() == u32(raw, 4), e.get_log_entry_type() == u32(raw, 8), e.get_log_entry_index() == u32(raw, 12), e.get_unknown_16() == u32(raw, 16), e.get_unknown_120() == u32(raw, 120)), 'fields of an entry')
    ctx.check(e.get_object_id().bytes_le == raw[20:36], 'object ID')
    v, o = e.get_droid()
    ctx.check(ctx.And(v.bytes_le == raw[36:52], o.bytes_le == raw[52:68]), 'DROID')
    v, o = e.get_birth_droid()
    ctx.check(ctx.And(v.bytes_le == raw[84:100], o.bytes_le == raw[100:116]), 'birth DROID')
    ts = e.get_guid_timestamps()
    for k, off in enumerate((20, 52, 100)):
        t = version1(ctx, raw[off:off + 16])
        w = None if t is None else DecodeGUIDTime(t)
        if w is None:
            ctx.check(ts[k] is None, 'a timestamp that does not exist')
        else:
            ctx.outcome('guid time')
            ctx.check(ts[k] is not None and ts[k] == w, 'GUID timestamp')
    lo, hi = e.get_timestamp()
    t = u32(raw, 116)
    for g, w in ((lo, DecodeFiletime(t << 32)), (hi, DecodeFiletime((t << 32) | 0xFFFFFFFF))):
        if w is None:
            ctx.outcome('no time')
            ctx.check(g is None, 'a timestamp that does not exist')
        else:
            ctx.outcome('time')
            ctx.check(g is not None and g == w, 'timestamp')
    if what == 'machine':
        c = cut(ctx, m)
        ctx.check(e.get_machine_id_raw() == c, 'machine ID')
        text(ctx, c, e.get_machine_id())


def h_size(ctx):
    n = ctx.choice('n', [0, 123, 124, 125])
    try:
        MoveTable.LogEntry((b'\2\0\0\0' * 40)[:n])
    except ValueError:
        ctx.outcome('refused')
        ctx.check(n != 124, 'an entry is refused')
        return
    ctx.outcome('accepted')
    ctx.check(n == 124, 'an entry of a wrong size is accepted')


def entry(typ, index):
    return b'\0' * 8 + p32(typ) + p32(index) + b'\0' * 108


def h_file(ctx, size, sectors, free, guess):
    """free: places (sector, entry) of entries with arbitrary types."""
    per = (size - 16) // 124
    types = {}
    img = SIG + b'\0' * (size - 16)
    foot = []
    for s in range(sectors):
        sec = b''
        for k in range(per):
            t = types[(s, k)] = ctx.int('t%d_%d' % (s, k), 0, 0xFFFFFFFF) if (s, k) in free else 2 if (s + k) % 3 else 1
            sec = sec + entry(t, s * 100 + k)
        foot.append(ctx.bytes('foot%d' % s, 16))
        img = img + sec + b'\x77' * (size - 16 - len(sec)) + foot[-1]
    cut = ctx.choice('cut', [0, 1, size - 1, size])
    img = img[:len(img) - cut]
    n = sectors - (1 if cut else 0)
    if guess == 512 and n:  # the first entry begins with a byte that is not 0
        img = put(img, 512, b'\1')
    f = ctx.file(img)
    p = MoveTable.MoveTableParser(f, None if guess else size)
    ctx.check(p.sector_size == (size if cut < size or sectors > 1 or not guess else 512), 'size of a sector')
    secs = list(p.log_sectors())
    ctx.check(len(secs) == n, 'number of sectors')
    for i in range(n):
        ft = secs[i].get_footer()
        ctx.check(ctx.And(ft.get_lowest_log_entry_index_present() == u32(foot[i], 0), ft.get_next_log_entry_index() == u32(foot[i], 4), ft.get_unused() == foot[i][8:]), 'footer of a sector')
    want, bad = [], False
    for s in range(n):
        for k in range(per):
            t = types[(s, k)]
            if not bad and ctx.fork(t == 2):
                want.append(s * 100 + k)
            elif not bad and not ctx.fork(t == 1):
                bad = True
    got, failed = [], False
    try:
        for e in p.log_entries():
            got.append(e.get_log_entry_index())
            f.seek(7)  # the caller uses the file as well
    except NotImplementedError:
        failed = True
    ctx.outcome('bad type' if bad else 'all')
    ctx.check(failed == bad, 'an unknown type of an entry')
    ctx.check(got == want, 'entries')


def h_guess(ctx):
    raw = ctx.bytes('raw', 16)
    n = ctx.choice('n', [0, 1, 15, 16, 17, 512])
    p = MoveTable.MoveTableParser(ctx.file(b'\0' * 512 + raw[:n] + ctx.choice('rest', [b'\1', b'\0']) * (n - 16)))
    want = n >= 16 and ctx.fork(ctx.And(*[raw[i] == 0 for i in range(16)]))
    ctx.outcome('4096' if want else '512')
    ctx.check(p.sector_size == (4096 if want else 512), 'size of a sector')


CASES = [
    {'name': 'header', 'fn': h_header, 'cfg': {'n': 0}, 'bounds': 'every header', 'expect': ['plain', 'refused']},
    {'name': 'header_machine', 'fn': h_header, 'cfg': {'n': 1}, 'bounds': 'machine IDs with an arbitrary character', 'expect': ['plain', 'one', 'two', 'refused']},
    {'name': 'signature', 'fn': h_signature, 'cfg': {}, 'bounds': 'one arbitrary byte', 'expect': ['accepted', 'refused']},
    {'name': 'size', 'fn': h_size, 'cfg': {}, 'bounds': 'sizes of an entry', 'expect': ['accepted', 'refused']},
    {'name': 'guess', 'fn': h_guess, 'cfg': {}, 'bounds': 'every begin of the second sector', 'expect': ['512', '4096']},
    {'name': 'file_512', 'fn': h_file, 'cfg': {'size': 512, 'sectors': 2, 'free': [(0, 0), (0, 3), (1, 0), (1, 3)], 'guess': 512}, 'bounds': 'two sectors, every type of four entries', 'expect': ['bad type', 'all']},
    {'name': 'file_4096', 'fn': h_file, 'cfg': {'size': 4096, 'sectors': 1, 'free': [(0, 0), (0, 31), (0, 32)], 'guess': 0}, 'bounds': 'a sector of 4096 bytes, every type of three entries', 'expect': ['bad type', 'all']},
]
for w, ex in (('ints', ['refused', 'time']), ('ids', ['time']), ('guid0', ['guid time']), ('guid1', ['guid time']), ('guid2', ['guid time']), ('same', ['guid time']), ('time', ['time', 'no time']), ('machine', ['plain', 'one', 'two'])):
    CASES.append({'name': 'entry_' + w, 'fn': h_entry, 'cfg': {'what': w}, 'bounds': 'arbitrary fields: ' + w, 'expect': ex})
