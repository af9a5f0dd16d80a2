"""C09: full paths and lookup by path."""
from dfir_ntfs import MFT
from harness.util import *

FILES = ['dfir_ntfs/MFT.py', 'dfir_ntfs/Attributes.py']
ASSUMPTIONS = ['References to the root directory carry its sequence number.']
ROOT = 5
ORPHAN = '<Orphan>'


def one(ctx, tag, i, letters='any'):
    if letters == 'any':
        return p16(ctx.int('%s%d' % (tag, i), 0x21, 0x2E)) + b'x\x00'
    return p16(ctx.int('%s%d' % (tag, i), 0x41, 0x7A))


class Rec:
    pass


def record(ctx, i, parents, nnames, flags=None, seq=None, letters='any', nsflags=None, base=0, more=True):
    r = Rec()
    r.i, r.valid = i, True
    r.seq = ctx.int('seq%d' % i, 0, 0xFFFF) if seq is None else seq
    r.flags = ctx.int('flags%d' % i, 0, 3) if flags is None else flags
    r.used = r.flags % 2 == 1
    r.dir = r.flags >= 2
    r.base = base
    r.names = []
    attrs = []
    for k in range(nnames):
        num = ctx.choice('parent%d_%d' % (i, k), parents) if len(parents) > 1 else parents[0]
        pseq = 5 if num == ROOT else ctx.int('pseq%d_%d' % (i, k), 0, 0xFFFF)
        ns = ctx.int('ns%d_%d' % (i, k), 0, 3) if nsflags is None else nsflags
        name = one(ctx, 'name%d_' % k, i, letters)
        r.names.append((name, num, pseq, ns))
        attrs.append(attr_resident(0x30, file_name_value(num + (pseq << 48), name, ns)))
    if nnames and more:
        attrs = [attr_resident(0x10, b'\x00' * 48), attr_nonresident(0x20, 0, 0, b'\x11\x01\x09\x00', 512, 64, 64)] + attrs + [attr_nonresident(0x80, 0, 0, b'\x11\x01\x0a\x00', 512, 64, 64)]
    r.bytes = frs_build(attrs, i, seq=r.seq, flags=r.flags, base=base)
    return r


def table(ctx, recs):
    """recs: dict of index -> Rec; the volume record, the root directory and invalid records fill the rest."""
    n = max(list(recs) + [ROOT]) + 1
    data = b''
    out = {}
    for i in range(n):
        if i in recs:
            out[i] = recs[i]
        elif i == 0:
            out[i] = record(ctx, 0, [ROOT], 0, 1, 1)
        elif i == 3:
            r = Rec()
            r.i, r.valid, r.seq, r.flags, r.used, r.dir, r.names, r.base = 3, True, 3, 1, True, False, [], 0
            r.bytes = frs_build([attr_resident(0x70, VOLUME_INFO)], 3, seq=3)
            out[i] = r
        elif i == ROOT:
            r = Rec()
            r.i, r.valid, r.seq, r.flags, r.used, r.dir, r.base = ROOT, True, 5, 3, True, True, 0
            r.names = [('.'.encode('utf-16le'), ROOT, 5, 3)]
            r.bytes = frs_build([attr_resident(0x30, file_name_value(ROOT + (5 << 48), r.names[0][0], 3))], ROOT, seq=5, flags=3)
            out[i] = r
        else:
            r = Rec()
            r.i, r.valid, r.names, r.base = i, False, [], 0
            r.bytes = b'\x00' * 1024
            out[i] = r
        data = data + out[i].bytes
    return MFT.MasterFileTableParser(ctx.file(data)), out


def eff(ctx, r):
    return ctx.If(r.used, r.seq, ctx.If(r.seq == 0, 0xFFFF, ctx.If(r.seq == 1, 1, r.seq - 1)))


def live(ctx, recs, num, seq):
    """The record that a parent reference denotes, if it is valid and current."""
    r = recs.get(num)
    if r is None or not r.valid or r.base:
        return None
    return r if ctx.fork(seq == eff(ctx, r)) else None


def txt(b):
    return b.decode('utf-16le', errors='replace')


def preferred(ctx, r):
    for name, num, seq, ns in r.names:
        if ctx.fork(ctx.Or(ns % 2 == 1, ns == 0)):
            return name, num, seq
    return r.names[0][:3]


def ref_path(ctx, recs, name, num, seq):
    comps = [txt(name)]
    seen = []
    while True:
        if num == ROOT:
            comps.append('')
            break
        r = None if num in seen else live(ctx, recs, num, seq)
        if r is None or not ctx.fork(r.dir) or not r.names:
            comps.append(ORPHAN)
            break
        seen.append(num)
        name, num, seq = preferred(ctx, r)
        comps.append(txt(name))
    comps.reverse()
    return '/'.join(comps)


def h_paths(ctx, plan, target, attrs=False, child=None, again=()):
    """plan: index -> (possible parents, number of names, flags or None, namespace or None)."""
    recs = {}
    for i, (parents, nn, fl, ns) in plan.items():
        recs[i] = record(ctx, i, parents, nn, fl, nsflags=ns)
    if child:  # one more segment of the target, with another name
        recs[child[0]] = record(ctx, child[0], child[1], 1, 1, nsflags=None, base=target + (eff(ctx, recs[target]) << 48))
        recs[target].names += recs[child[0]].names
    mft, recs = table(ctx, recs)
    paths_of(ctx, mft, recs, target, attrs)
    for t in again:  # more records of the same table
        paths_of(ctx, mft, recs, t, False)


def paths_of(ctx, mft, recs, target, attrs):
    t = recs[target]
    fr = mft.get_file_record_by_number(target)
    got = mft.build_full_paths(fr, True) if attrs else mft.build_full_paths(fr)
    front, back = [], []
    for n in t.names:
        if ctx.fork(ctx.Or(n[3] % 2 == 1, n[3] == 0)):
            front.insert(0, n)
        else:
            back.append(n)
    ctx.check(len(got) == len(t.names), 'one path per name')
    for g, (name, num, seq, ns) in zip(got, front + back):
        want = ref_path(ctx, recs, name, num, seq)
        if attrs:
            ctx.check(g[1].get_file_name() == txt(name), 'attribute of a path')
            ctx.check(g[1].get_flags() == ns, 'attribute of a path')
            g = g[0]
        ctx.check(g == want, 'path')
        ctx.outcome('root' if want[0] == '/' else 'orphan')


def h_lookup(ctx, plan, path, sensitive):
    recs = {}
    for i, (parents, fl, *nn) in plan.items():
        recs[i] = record(ctx, i, parents, nn[0] if nn else 1, fl, letters='letters', nsflags=1, more=bool(nn))
    mft, recs = table(ctx, recs)
    comps = path.strip('/').split('/')

    def same(name, want):
        c = ctx.byte_at(name, 0)
        if len(want) != 1:
            return False
        return ctx.Or(c == ord(want), ctx.And(not sensitive, ctx.Or(c == ord(want.lower()), c == ord(want.upper()))))

    want = None
    for i in sorted(recs):
        r = recs[i]
        if not r.valid or i == ROOT:
            continue
        for name, num, seq, ns in r.names:
            if not ctx.fork(ctx.And(r.used, same(name, comps[-1]))):
                continue
            if path.endswith('/') and not ctx.fork(r.dir):
                continue
            ok = True
            for c in reversed(comps[:-1]):
                p = None if num == ROOT else live(ctx, recs, num, seq)
                if p is None or not p.names or not ctx.fork(same(p.names[0][0], c)):
                    ok = False
                    break
                num, seq = p.names[0][1:3]
            if ok and num == ROOT:
                want = i
                break
        if want is not None:
            break
    got = mft.get_file_record_by_path(path, True) if sensitive else mft.get_file_record_by_path(path)
    if want is None:
        ctx.outcome('absent')
        ctx.check(got is None, 'a file that does not match the path is returned')
    else:
        ctx.outcome('found')
        ctx.check(got is not None, 'an existing path is not found')
        ctx.check(got.get_master_file_table_number() == want, 'wrong file for the path')


def h_badpath(ctx):
    mft, recs = table(ctx, {1: record(ctx, 1, [ROOT], 1, 3)})
    path = ctx.choice('path', ['', 'a', 'a/b', '//', '/a//b', '/./b', '/../b', '/a/../b', '/', '/zzz'])
    try:
        got = mft.get_file_record_by_path(path)
    except MFT.MasterFileTableException:
        ctx.outcome('refused')
        ctx.check(path not in ('/', '/zzz'), 'a valid path is refused')
        return
    ctx.outcome('accepted')
    ctx.check(path in ('/', '/zzz'), 'an invalid path is accepted')
    if path == '/':
        ctx.check(got.get_master_file_table_number() == ROOT, 'root directory')
    else:
        ctx.check(got is None, 'absent file')


T = 'any sequence numbers, allocation state, directory state, name characters; plan %s'
C1 = {6: ([1, 2, 4, ROOT, 9], 1, None, 1), 1: ([2, ROOT, 3, 6], 1, None, 1), 2: ([1, 4, 2, ROOT], 1, None, 1)}
C2 = {6: ([1], 2, 1, None), 1: ([ROOT], 2, 3, None)}
C3 = {6: ([1, ROOT], 3, 1, None), 1: ([ROOT], 1, 3, 1)}
C4 = {6: ([1], 1, 1, 1), 1: ([2, ROOT], 1, 3, 1), 2: ([4], 1, 3, 1), 4: ([7], 1, 3, 1), 7: ([1, ROOT], 1, 3, 1)}
C5 = {6: ([1], 1, 1, 1), 1: ([2], 1, 3, 1), 2: ([4], 0, 3, 1)}
C6 = {6: ([1], 1, 1, None), 1: ([ROOT], 1, 3, 1)}
C7 = {6: ([1, 2], 2, 1, 1), 1: ([4], 1, 3, 1), 2: ([4], 1, 3, 1), 4: ([ROOT], 1, 3, 1)}
C8 = {6: ([1], 1, 1, 1), 7: ([1, 2], 1, 1, 1), 1: ([2], 1, 3, 1), 2: ([ROOT], 1, 3, 1)}
L1 = {1: ([ROOT, 2], 3), 2: ([ROOT, 1], None), 6: ([1, 2, ROOT], None)}
CASES = [
    {'name': 'paths_chain', 'fn': h_paths, 'cfg': {'plan': C1, 'target': 6}, 'bounds': T % (C1,), 'expect': ['root', 'orphan']},
    {'name': 'paths_links', 'fn': h_paths, 'cfg': {'plan': C2, 'target': 6, 'attrs': True}, 'bounds': T % (C2,), 'expect': ['root', 'orphan']},
    {'name': 'paths_three', 'fn': h_paths, 'cfg': {'plan': C3, 'target': 6}, 'bounds': T % (C3,), 'expect': ['root', 'orphan']},
    {'name': 'paths_deep', 'fn': h_paths, 'cfg': {'plan': C4, 'target': 6}, 'bounds': T % (C4,), 'expect': ['root', 'orphan']},
    {'name': 'paths_nameless', 'fn': h_paths, 'cfg': {'plan': C5, 'target': 6}, 'bounds': T % (C5,), 'expect': ['orphan']},
    {'name': 'paths_child', 'fn': h_paths, 'cfg': {'plan': C6, 'target': 6, 'child': (7, [1, ROOT])}, 'bounds': T % (C6,) + '; one more name in another segment (7)', 'expect': ['root', 'orphan']},
    {'name': 'paths_shared', 'fn': h_paths, 'cfg': {'plan': C7, 'target': 6}, 'bounds': T % (C7,), 'expect': ['root', 'orphan']},
    {'name': 'paths_two_files', 'fn': h_paths, 'cfg': {'plan': C8, 'target': 6, 'again': (7, 6)}, 'bounds': T % (C8,) + '; the paths of 6, 7 and again 6 from one parser', 'expect': ['root', 'orphan']},
    {'name': 'bad_path', 'fn': h_badpath, 'bounds': 'ten path shapes', 'expect': ['refused', 'accepted']},
]
for _p in ('/a', '/a/B', '/a/b/', '/c/a/b'):
    for _s in (True, False):
        CASES.append({'name': 'lookup_%s_%d' % (_p.replace('/', '_'), _s), 'fn': h_lookup, 'cfg': {'plan': L1, 'path': _p, 'sensitive': _s}, 'bounds': 'path %s, %s; any one-letter names, sequence numbers, allocation state; plan %s' % (_p, 'case-sensitive' if _s else 'case-insensitive', L1), 'expect': ['found', 'absent']})
L2 = {1: ([ROOT], 3), 2: ([ROOT], 3), 6: ([1, 2, ROOT], 1, 2)}
for _p in ('/a', '/a/B'):
    CASES.append({'name': 'lookup_links_%s' % _p.replace('/', '_'), 'fn': h_lookup, 'cfg': {'plan': L2, 'path': _p, 'sensitive': False}, 'bounds': 'path %s, case-insensitive; a file with two hard links; any one-letter names, sequence numbers; plan %s' % (_p, L2), 'expect': ['found', 'absent']})
