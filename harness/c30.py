"""C30: short names, dates, times and flags of FAT directory entries."""
from dfir_ntfs.addons import FAT
from harness.util import *

FILES = ['dfir_ntfs/addons/FAT.py']
ASSUMPTIONS = ['Parsed names have up to 5 arbitrary characters, the others are letters or spaces (which names are valid is decided for 11 arbitrary bytes).', 'Encodings: ASCII and raw bytes (other code pages are data of the Python runtime).']
FAT.WARN_FUNC = lambda *a: None
BAD = b'"*,./:;<=>?[\\]|'


def okay(ctx, c):
    """A character that is allowed in any place."""
    return ctx.And(c >= 0x20, ctx.Or(c < 0x61, c > 0x7A), *[c != b for b in BAD])


def valid(ctx, raw):
    first = ctx.Or(raw[0] == 0, raw[0] == 5, ctx.And(raw[0] != 0x20, okay(ctx, raw[0])))
    dots = ctx.And(raw[0] == 0x2E, ctx.Or(raw[1] == 0x20, raw[1] == 0x2E), *[raw[i] == 0x20 for i in range(2, 11)])
    return ctx.Or(dots, ctx.And(first, *[okay(ctx, raw[i]) for i in range(1, 11)]))


def h_valid(ctx):
    raw = ctx.bytes('raw', 11)
    want = valid(ctx, raw)
    got = FAT.ValidateShortName(raw)
    ctx.outcome('valid' if ctx.fork(want) else 'invalid')
    ctx.check(ctx.And(ctx.Implies(want, got), ctx.Implies(got, want)), 'validity of a short name')
    ctx.check(ctx.And(FAT.ValidateShortName(raw[:10]) == False, FAT.ValidateShortName(raw + b'A') == False), 'a name of a wrong length is valid')


def h_parse(ctx, shapes, enc, anyfirst):
    """X: an arbitrary character"""
    shape = ctx.choice('shape', shapes)
    lb, le = ctx.choice('lower', [(False, False), (True, False), (False, True), (True, True)] if enc in (None, 'ascii') else [(False, False)])
    raw = b''
    for i, ch in enumerate(shape):
        raw = raw + (ctx.bytes('c%d' % i, 1) if ch == 'X' else ch.encode())
    got = FAT.ParseShortName(raw, enc, lb, le)
    if not ctx.fork(valid(ctx, raw)):
        ctx.outcome('invalid')
        ctx.check(got is None, 'an invalid name is parsed')
        return
    ctx.outcome('valid')
    ctx.check(got is not None, 'a valid name is not parsed')
    out = []
    for lo, hi, lower in ((0, 8, lb), (8, 11, le)):
        n = hi
        while n > lo and ctx.fork(raw[n - 1] == 0x20):
            n -= 1
        part = []
        for i in range(lo, n):
            c = raw[i]
            if i == 0:
                c = ctx.If(ctx.Or(c == 0, c == 0xE5), 0x5F, ctx.If(c == 5, 0xE5, c))
            if enc not in (None, 'ascii'):
                c = ord(p8(c).decode(enc))
            elif enc is not None:
                c = ctx.If(c > 0x7F, 0xFFFD, c)
                if lower:
                    c = ctx.If(ctx.And(c >= 0x41, c <= 0x5A), c + 32, c)
            part.append(c)
        out.append(part)
    want = out[0] + ([0x2E] + out[1] if out[1] else [])
    ctx.check(len(got) == len(want), 'length of a name')
    for i in range(len(want)):
        ctx.check((ord(got[i]) if enc is not None else got[i]) == want[i], 'character of a name')


def h_checksum(ctx, lo, hi):
    ctx.merge()
    raw = b'FILENAMEEXT'[:lo] + ctx.bytes('raw', hi - lo) + b'FILENAMEEXT'[hi:]
    s = 0
    for i in range(11):
        s = ((s % 2) * 128 + s // 2 + raw[i]) % 256
    ctx.outcome('checksum')
    ctx.check(FAT.BuildChecksum(raw) == s, 'checksum')


def h_date(ctx):
    v = ctx.int('v', 0, 0xFFFF)
    day, month, year = v % 32, (v // 32) % 16, 1980 + v // 512
    leap = ctx.And(year % 4 == 0, year != 2100)
    last = ctx.If(month == 2, ctx.If(leap, 29, 28), ctx.If(ctx.Or(month == 4, month == 6, month == 9, month == 11), 30, 31))
    good = ctx.And(day >= 1, month >= 1, month <= 12, day <= last)
    got = FAT.DecodeFATDate(v)
    if got is None:
        ctx.outcome('invalid')
        ctx.check(ctx.Not(good), 'a valid date is refused')
        return
    ctx.outcome('date')
    ctx.check(good, 'an invalid date is accepted')
    ctx.check(ctx.And(got.year == year, got.month == month, got.day == day), 'date')


def h_time(ctx):
    v = ctx.int('v', 0, 0xFFFF)
    s, m, h = (v % 32) * 2, (v // 32) % 64, v // 2048
    good = ctx.And(s < 60, m < 60, h < 24)
    got = FAT.DecodeFATTime(v)
    if got is None:
        ctx.outcome('invalid')
        ctx.check(ctx.Not(good), 'a valid time is refused')
        return
    ctx.outcome('time')
    ctx.check(good, 'an invalid time is accepted')
    ctx.check(ctx.And(got.hour == h, got.minute == m, got.second == s), 'time')


def h_nt(ctx):
    v = ctx.int('v', 0, 255)
    bit = lambda n: (v // n) % 2 == 1
    lb, le, enc, large, pad = FAT.ParseNTByte(v)
    same = lambda a, b: ctx.And(ctx.Implies(a, b), ctx.Implies(b, a))
    ctx.check(ctx.And(same(lb, bit(8)), same(le, bit(16)), same(enc, bit(1)), same(large, ctx.And(bit(1), bit(2)))), 'flags')
    if pad is None:
        ctx.outcome('plain')
        ctx.check(ctx.Not(bit(1)), 'no padding of an encrypted file')
    else:
        ctx.outcome('encrypted')
        ctx.check(ctx.And(bit(1), pad == (v // 32) * 2 + (v // 4) % 2), 'padding')


def h_attrs(ctx):
    v = ctx.int('v', 0, 255)
    lab = FAT.IsVolumeLabel(v)
    want = ctx.And((v // 8) % 2 == 1, (v // 16) % 2 == 0, v % 64 != 15)
    ctx.outcome('label' if ctx.fork(want) else 'not a label')
    ctx.check(ctx.And(ctx.Implies(lab, want), ctx.Implies(want, lab)), 'volume label')
    text = FAT.ResolveFileAttributes(v)
    parts = text.split(' | ')
    for n, t in ((1, 'READ_ONLY'), (2, 'HIDDEN'), (4, 'SYSTEM'), (8, 'VOLUME_ID'), (16, 'DIRECTORY'), (32, 'ARCHIVE')):
        ctx.check((t in parts) == ctx.fork((v // n) % 2 == 1), 'attribute ' + t)


SHAPES = ['XABCDEFGXHI', 'XX      XX ', 'AX      X X', 'X X        ', 'ABCDEFGXABX']
CASES = [
    {'name': 'valid', 'fn': h_valid, 'cfg': {}, 'bounds': 'every name', 'expect': ['valid', 'invalid']},
    {'name': 'checksum', 'fn': h_checksum, 'cfg': {'lo': 0, 'hi': 11}, 'bounds': 'every name', 'expect': ['checksum']},
    {'name': 'date', 'fn': h_date, 'cfg': {}, 'bounds': 'every date', 'expect': ['date', 'invalid']},
    {'name': 'time', 'fn': h_time, 'cfg': {}, 'bounds': 'every time', 'expect': ['time', 'invalid']},
    {'name': 'ntbyte', 'fn': h_nt, 'cfg': {}, 'bounds': 'every NT byte', 'expect': ['plain', 'encrypted']},
    {'name': 'attributes', 'fn': h_attrs, 'cfg': {}, 'bounds': 'every set of attributes', 'expect': ['label', 'not a label']},
]
for enc in ('ascii', None):
    for i, sh in enumerate(SHAPES):
        CASES.append({'name': 'parse_%s_%d' % (enc or 'raw', i), 'fn': h_parse, 'cfg': {'shapes': [sh], 'enc': enc, 'anyfirst': True}, 'bounds': 'names like ' + repr(sh), 'expect': ['valid', 'invalid']})
    CASES.append({'name': 'parse_%s_dots' % (enc or 'raw'), 'fn': h_parse, 'cfg': {'shapes': ['.X         ', 'X.         '], 'enc': enc, 'anyfirst': True}, 'bounds': 'dot and dot-dot', 'expect': ['valid', 'invalid']})
for i, sh in enumerate(['XX      X  ', 'A     X XX ']):
    CASES.append({'name': 'parse_cp866_%d' % i, 'fn': h_parse, 'cfg': {'shapes': [sh], 'enc': 'cp866', 'anyfirst': True}, 'bounds': 'names in a code page, like ' + repr(sh), 'expect': ['valid', 'invalid']})
