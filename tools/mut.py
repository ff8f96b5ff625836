#!/usr/bin/env python3
"""Development aid: run a check against a scratch copy of the repository with one textual change.
   mut.py CHECK FILE OLD NEW   (FILE relative to trunk/SUAVE; evidence goes to the scratch copy of /verif)"""
import os, shutil, subprocess, sys, tempfile
ids, f, old, new = sys.argv[1:5]
old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
d = tempfile.mkdtemp(prefix='mut_')
try:
    shutil.copytree(os.environ.get('MUT_BASE', '/repo') + '/trunk', d + '/repo/trunk', ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copytree('/verif', d + '/verif', ignore=shutil.ignore_patterns('.git', 'evidence', '__pycache__'))
    os.makedirs(d + '/verif/evidence')
    p = d + '/repo/trunk/SUAVE/' + f
    s = open(p).read()
    assert old in s, 'text not found'
    open(p, 'w').write(s.replace(old, new, 1))
    for i in ids.split(','):
        r = subprocess.run([d + '/verif/run.sh', i], env=dict(os.environ, VERIF_REPO=d + '/repo'), capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith(('VIOL', '  clause', 'OK'))]
        print(i, 'rc=%d' % r.returncode, lines[:2], r.stderr[-200:] if r.returncode == 2 else '')
finally:
    shutil.rmtree(d)
