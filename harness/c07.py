"""C07: assembling the data runs of a file from the attribute records of several segments."""
import itertools
from dfir_ntfs import MFT
from harness.util import *

FILES = ['dfir_ntfs/MFT.py']
ASSUMPTIONS = ['Attribute records have fixed field widths in their mapping pairs (C05 covers the decoding of mapping pairs).']
DATA, INDEX = 0x80, 0xA0
NAMES = {'': None, 'N': 'N', 'MM': 'MM'}


def mkrec(ctx, kind, name, runs, hi=False):
    """One nonresident record; runs: list of 0 (allocated) / 1 (sparse). Returns (bytes, info)."""
    lowest = ctx.int('lowest', 0, 1 << 10)
    fsize = ctx.int('size', 0, 1 << 20)
    pairs = b''
    abs_, cur = [], 0
    for sparse in runs:
        n = ctx.int('count', 1, 100)
        if sparse:
            pairs = pairs + b'\x01' + p8(n)
            abs_.append((None, n))
        else:
            d = ctx.int('delta', 1, 0x7FFF)
            cur = cur + d
            pairs = pairs + b'\x21' + p8(n) + p16(d)
            abs_.append((cur, n))
    total = 0
    for _, n in abs_:
        total = total + n
    highest = lowest + total - 1 if runs else lowest
    if hi:  # a stale value: the runs say which VCNs the record covers
        highest = ctx.int('highest', 0, 1 << 12)
        ctx.assume(lowest <= highest)
    rec = attr_nonresident(kind, lowest, highest, pairs + b'\x00', 1 << 21, fsize, 0, name.encode('utf-16le'))
    return rec, {'kind': kind, 'name': name, 'lowest': lowest, 'size': fsize, 'runs': abs_, 'total': total}


def contiguous(ctx, infos):
    """The records, in some order, cover VCNs from 0 without gaps and overlaps."""
    r = False
    for order in itertools.permutations(infos):
        c, v = True, 0
        for i in order:
            c = ctx.And(c, i['lowest'] == v)
            v = v + i['total']
        r = ctx.Or(r, c)
    return r


def complete(ctx, infos):
    """A stream with no runs at all is complete when it is empty."""
    r = contiguous(ctx, infos)
    if not any(i['runs'] for i in infos):
        r = ctx.And(r, *[ctx.Implies(i['lowest'] == 0, i['size'] == 0) for i in infos])
    return r


def lookup(ctx, runs, v):
    """(covered, sparse, cluster) of VCN v."""
    start = 0
    cov, sp, lcn = False, False, 0
    for off, n in runs:
        here = ctx.And(v >= start, v < start + n)
        cov = ctx.Or(cov, here)
        if off is None:
            sp = ctx.Or(sp, here)
        else:
            lcn = ctx.If(here, off + v - start, lcn)
        start = start + n
    return cov, sp, lcn


def want_lookup(ctx, infos, v):
    cov, sp, lcn = False, False, 0
    for i in infos:
        start = i['lowest']
        for off, n in i['runs']:
            here = ctx.And(v >= start, v < start + n)
            cov = ctx.Or(cov, here)
            if off is None:
                sp = ctx.Or(sp, here)
            else:
                lcn = ctx.If(here, off + v - start, lcn)
            start = start + n
    return cov, sp, lcn


def build(ctx, spec, hi=False):
    """spec: per segment, a list of (kind, name, runs). Returns (FileRecord, infos)."""
    segs, infos = [], []
    for k, recs in enumerate(spec):
        out = [attr_resident(0x10, b'\x11' * 48)] if k == 0 else []
        for kind, name, runs in recs:
            r, i = mkrec(ctx, kind, name, runs, hi)
            out.append(r)
            infos.append(i)
        segs.append(MFT.FileRecordSegment(frs_build(out, 30 + k, base=0 if k == 0 else 30 + (1 << 48)), True, 30 + k))
    return MFT.FileRecord(segs[0], segs[1:]), infos


def h_runs(ctx, spec, kind, name, hi=False):
    fr, infos = build(ctx, spec, hi)
    mine = [i for i in infos if i['kind'] == kind and i['name'] == name]
    v = ctx.int('vcn', 0, 1 << 12)
    query = name
    if name == '':
        query = ctx.choice('query', ['', None])
    idx = kind == INDEX
    size = fr.get_data_size(query, True) if idx else fr.get_data_size(query)
    if size is None:
        ctx.check(ctx.And(True, *[i['lowest'] != 0 for i in mine]), 'size of an existing stream is not found')
    else:
        ctx.check(ctx.Or(False, *[ctx.And(i['lowest'] == 0, size == i['size']) for i in mine]), 'size does not come from the first record of the stream')
    try:
        got = fr.get_data_runs(query, True) if idx else fr.get_data_runs(query)
    except MFT.MasterFileTableException:
        ctx.outcome('refused')
        ctx.check(ctx.Not(complete(ctx, mine)) if mine else False, 'a complete stream is refused')
        return
    if not mine:
        ctx.outcome('none')
        ctx.check(got is None, 'data runs for a stream that does not exist')
        return
    ctx.outcome('runs')
    ctx.check(got is not None, 'no data runs for an existing stream')
    ctx.check(complete(ctx, mine), 'a stream with a gap, an overlap or no beginning is accepted')
    c1, s1, l1 = lookup(ctx, got, v)
    c2, s2, l2 = want_lookup(ctx, mine, v)
    ctx.check(c1 == c2, 'VCN coverage')
    ctx.check(ctx.Implies(c2, s1 == s2), 'sparse range')
    ctx.check(ctx.Implies(ctx.And(c2, ctx.Not(s2)), l1 == l2), 'cluster of a VCN')


def h_merged(ctx, spec):
    """attributes(True): one record per stream, with all of its runs."""
    fr, infos = build(ctx, spec)
    keys = []
    for i in infos:
        k = (i['kind'], i['name'])
        if k not in keys:
            keys.append(k)
    for k in keys:
        ctx.assume(contiguous(ctx, [i for i in infos if (i['kind'], i['name']) == k]))
    v = ctx.int('vcn', 0, 1 << 12)
    plain = [a for a in fr.attributes()]
    ctx.check(len(plain) == len(infos) + 1, 'an attribute record is lost or repeated')
    got = [a for a in fr.attributes(True)]
    res = [a for a in got if type(a) is MFT.AttributeRecordResident]
    ctx.check(len(res) == 1 and res[0].type_code == 0x10, 'resident attributes')
    non = [a for a in got if type(a) is MFT.AttributeRecordNonresident]
    ctx.check(len(non) == len(keys), 'number of merged streams')
    for k in keys:
        mine = [i for i in infos if (i['kind'], i['name']) == k]
        hit = [a for a in non if ctx.fork(ctx.And(a.type_code == k[0], (a.name or '') == k[1]))]
        ctx.check(len(hit) == 1, 'stream missing after merging')
        a = hit[0]
        total, size = 0, 0
        for i in mine:
            total = total + i['total']
            size = ctx.If(i['lowest'] == 0, i['size'], size)
        ctx.check(a.lowest_vcn == 0, 'lowest VCN')
        ctx.check(a.highest_vcn == total - 1, 'highest VCN')
        ctx.check(a.file_size == size, 'size')
        c1, s1, l1 = lookup(ctx, a.data_runs, v)
        c2, s2, l2 = want_lookup(ctx, mine, v)
        ctx.check(c1 == c2, 'VCN coverage')
        ctx.check(ctx.Implies(c2, s1 == s2), 'sparse range')
        ctx.check(ctx.Implies(ctx.And(c2, ctx.Not(s2)), l1 == l2), 'cluster of a VCN')
    ctx.outcome('merged')


A2, A1, S1 = [0, 0], [0], [0, 1]
SPECS = {
    'split3': [[(DATA, '', A1)], [(DATA, '', S1)], [(DATA, '', A1)]],
    'split2': [[(DATA, '', A2)], [(DATA, '', A2)]],
    'streams': [[(DATA, '', A1), (DATA, 'N', A1)], [(DATA, '', A1), (DATA, 'N', A1)]],
    'index': [[(DATA, '', A1), (INDEX, 'MM', A1)], [(INDEX, 'MM', A1)]],
    'case': [[(DATA, 'n', A1), (DATA, 'N', A1)], [(DATA, 'N', A1)]],
    'types': [[(DATA, '', A1), (INDEX, '', A1)], [(INDEX, '', A1)], [(DATA, '', A1)]],
    'empty': [[(DATA, '', [])], [(DATA, 'N', A1)]],
    'split4': [[(DATA, '', A1)], [(DATA, '', A1)], [(DATA, '', S1)], [(DATA, '', A1)]],
}
Q = [('split3', DATA, ''), ('split2', DATA, ''), ('streams', DATA, ''), ('streams', DATA, 'N'), ('streams', DATA, 'MM'), ('streams', INDEX, ''), ('index', INDEX, 'MM'), ('index', DATA, 'MM'), ('case', DATA, 'N'), ('case', DATA, 'n'), ('types', DATA, ''), ('types', INDEX, ''), ('empty', DATA, '')]
CASES = []
for _s, _k, _n in Q:
    _none = not any(k == _k and n == _n for seg in SPECS[_s] for k, n, r in seg)
    CASES.append({'name': 'runs_%s_%x_%s' % (_s, _k, _n), 'fn': h_runs, 'cfg': {'spec': SPECS[_s], 'kind': _k, 'name': _n}, 'expect': ['none'] if _none else ['runs', 'refused'],
                  'bounds': 'segments %s; any VCNs below 2^10, run lengths up to 100, positions up to 2^16, sizes' % (SPECS[_s],)})
CASES.append({'name': 'runs_stale_highest', 'fn': h_runs, 'cfg': {'spec': SPECS['split2'], 'kind': DATA, 'name': '', 'hi': True}, 'expect': ['runs', 'refused'], 'bounds': 'as runs_split2, with any highest VCN in every record'})
for _s in ('split3', 'streams', 'index', 'case', 'types'):
    CASES.append({'name': 'merged_%s' % _s, 'fn': h_merged, 'cfg': {'spec': SPECS[_s]}, 'expect': ['merged'], 'bounds': 'segments %s, streams contiguous' % (SPECS[_s],)})
CASES.append({'name': 'runs_split4', 'fn': h_runs, 'cfg': {'spec': SPECS['split4'], 'kind': DATA, 'name': ''}, 'expect': ['runs', 'refused'], 'tier': 'thorough', 'bounds': 'segments %s' % (SPECS['split4'],)})
CASES.append({'name': 'merged_split4', 'fn': h_merged, 'cfg': {'spec': SPECS['split4']}, 'expect': ['merged'], 'tier': 'thorough', 'bounds': 'segments %s' % (SPECS['split4'],)})
