#!/usr/bin/env python3
"""Writes DESIGN.md from docs/, the property table, the harnesses' stated assumptions and tools/costs.json."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
ORACLE = {
    'C01': 'per stride: the last two bytes equal the update sequence number, and are replaced by the array element; anything else is refused; all other bytes are unchanged',
    'C02': 'as C01 for index buffers and restart/record pages; the CRC and the fix-up values are written or left arbitrary',
    'C03': 'each getter against the header bytes; acceptance as a condition over header fields and buffer length',
    'C04': 'an independent walk over the attribute records with the documented limits; the value, name, VCNs and sizes from the raw bytes',
    'C05': 'generation of mapping pairs from symbolic runs (round trip), and a byte-wise condition for refusal',
    'C06': 'byte i of the file is byte (run, offset) of the volume, zero in sparse runs, cut at the size; random access with symbolic offset and size',
    'C07': 'concatenation of generated runs; refusal exactly when VCNs do not join',
    'C08': 'membership of segments from (base reference, effective sequence number) as a condition per pair of records',
    'C09': 'a reference path from the parent chain in the harness, with liveness, cycles and name spaces',
    'C10': 'exact rational value of the 64-bit count, inverse property, range of datetime',
    'C11': 'each field against its bytes; absent (short) values yield none',
    'C12': 'an independent walk over the entries with the documented limits',
    'C13': 'an independent walk over the entries; fields against bytes',
    'C14': 'fields against bytes for each record version; refusal as a condition',
    'C15': 'planted records in arbitrary surroundings: the sequence of reported positions',
    'C16': 'inverse functions, monotonicity and the size of the fields as bit-vector identities',
    'C17': 'records are generated into pages (wrapping, spanning); the set of reported LSNs and their data',
    'C18': 'which copy of a page wins, as a condition over LSNs, and that the file object is never written',
    'C19': 'fields against bytes; offsets of redo and undo data; target VCN/LCN arithmetic',
    'C20': 'a reference open attribute table that is replayed over the records in the harness',
    'C21': 'which restart page is chosen as a condition over validity and LSN; fields against bytes',
    'C22': 'each getter against its bytes and the signed encodings of sizes',
    'C23': 'the chain of EBRs is followed in the harness on the same symbolic table, with a visited set',
    'C24': 'validity of each header as a condition; the entries of the first valid one',
    'C25': 'the block is taken from the first store entry that applies, by the rules for plain, overlay and forwarded entries, written declaratively',
    'C26': 'byte i of a read is the byte of the block that C25 defines; sizes and positions at the boundaries',
    'C27': 'fields against bytes; lists of blocks as the followed chain with a visited set',
    'C28': 'type from the count of clusters, FAT position and size from the fields; refusal as a condition',
    'C29': 'element n from its 12/16/32 bits; the chain as the linked sequence with a visited set',
    'C30': 'character classes, rotation checksum, calendar fields from the bits',
    'C31': 'a reference assembly of long names over the entries in the harness',
    'C32': 'bytes of the clusters of the chain; a reference walk over the same symbolic directories',
    'C33': 'validity as a condition over the fields; the checksum as the rotation over the bytes that count',
    'C34': 'a reference state machine over entry types; fields against bytes; checksum over the set',
    'C35': 'chain as the linked sequence, bitmap bit n, bytes of the clusters; validity of each region is a symbolic bit',
    'C36': 'a reference walk over the same symbolic directories',
    'C37': 'fields against bytes, entries by type in order',
    'C38': 'fields against bytes; a reference walk over the list',
    'C39': 'planted $FILE_NAME values: yielded exactly when the condition of the property holds',
    'C40': 'generated volumes: the known runs, size and contents of segments',
    'C41': 'planted blocks: yielded exactly when their timestamps are plausible; majority counted in the harness',
    'C42': 'rows built in the harness from the entries that the walk of the library yields',
    'C43': 'rows built in the harness from the fields it put into the records, with paths from the library',
    'C44': 'a reference file system of one file: bytes of the shadow copy by position, errors by request',
}


def p(i, title, statement, quant, domain, why, files, anchors):
    PROPS.append((i, title, statement, domain, anchors))


def main():
    exec(open(os.path.join(HERE, 'tools', 'props_table.py')).read(), {'p': p})
    costs = json.load(open(os.path.join(HERE, 'tools', 'costs.json')))
    out = [open(os.path.join(HERE, 'docs', 'head.md')).read(), '\n## 3. Properties\n\nThe statements are in `properties.jsonl`; each case with its bound is in the evidence file and in the `CASES` table of the harness. '
           'Costs are of one quick run (8 cores): paths, solver queries, wall time.\n']
    for i, title, statement, domain, anchors in sorted(PROPS):
        if i[0] == 'N':
            continue
        src = ast.parse(open(os.path.join(HERE, 'harness', i.lower() + '.py')).read())
        ass = []
        for n in src.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
                ass = ast.literal_eval(n.value)
        c = costs.get(i, {})
        out.append('### %s %s\n' % (i, title))
        out.append('* Encoded: %s (and what they call).' % '; '.join('%s in `%s`' % a for a in anchors))
        out.append('* Oracle: %s.' % ORACLE[i])
        out.append('* Bounds: %s.%s' % (domain, ' Assumptions: ' + ' '.join(ass) if ass else ''))
        if c:
            out.append('* Cost: %d cases, %d paths, %d queries, %d s; %d functions of the repository are encoded.' % (c['cases'], c['paths'], c['queries'], c['wall'], c['functions']))
        out.append('')
    tail = open(os.path.join(HERE, 'docs', 'tail.md')).read()
    fixed = json.load(open(os.path.join(HERE, 'known_findings.json')))['fixed']
    tail = tail.replace('@FIXED@', '\n'.join('* ' + x[7:] for x in fixed))
    rows = []
    sd = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, 'meta.json')))
        rows.append('* `%s` (%s): %s' % (d, m['property'], m['what_it_breaks']))
    tail = tail.replace('@SEEDS@', '\n'.join(rows))
    for k in ('MUT', 'REFAC'):
        f = os.path.join(HERE, 'docs', k.lower() + '.md')
        tail = tail.replace('@%s@' % k, open(f).read() if os.path.exists(f) else '')
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + tail)


main()
