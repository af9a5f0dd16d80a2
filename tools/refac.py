#!/usr/bin/env python3
"""Apply the behaviour-preserving edits of tools/refac/rN.py to a copy of the repository: refac.py rN [DEST].

Prints the destination; run the checks with VERIF_REPO=DEST. Development tool, no check uses it."""
import os, shutil, subprocess, sys, runpy
name = sys.argv[1]
dest = sys.argv[2] if len(sys.argv) > 2 else '/tmp/w/refrepo_' + name
src = os.environ.get('VERIF_REPO', '/repo')
here = os.path.dirname(os.path.abspath(__file__))
shutil.rmtree(dest, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', src, dest])
for f, old, new in runpy.run_path(os.path.join(here, 'refac', name + '.py'))['EDITS']:
    p = os.path.join(dest, f)
    t = open(p).read()
    n = t.count(old)
    if n != 1:
        print('EDIT does not apply', f, n, repr(old[:80]))
        sys.exit(1)
    open(p, 'w').write(t.replace(old, new))
print(dest)
