#!/usr/bin/env python3
"""Development aid: make seeded/<id>/ from one or more textual changes and a demonstration, and try it.
   seed.py SPEC.py   where SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)]"""
import json, os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
DEMO = '#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD/trunk"\ncd "$(dirname "$0")" && exec $PY demo.py\n'
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d = os.path.join(root, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        shutil.copy('/repo/trunk/SUAVE/version.py', w + '/r/trunk/SUAVE/')
        for f, old, new in s['edits']:
            p = w + '/r/trunk/SUAVE/' + f
            t = open(p, newline='').read()
            if '\r\n' in t: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert t.count(old) >= 1, (s['id'], f, 'occurrences', t.count(old))
            open(p, 'w', newline='').write(t.replace(old, new, 1))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.py', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        # removed lines must come from the base commit
        base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
        for f, old, new in s['edits']:
            t = subprocess.run(['git', '-C', '/repo', 'show', base + ':trunk/SUAVE/' + f], capture_output=True, text=True).stdout.replace('\r\n', '\n')
            if not any(l.strip() and l in t for l in old.split('\n')): print('  not original:', old[:60])
        clean = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        bad = subprocess.run([d + '/demo.sh'], cwd=w + '/r', capture_output=True, text=True)
        shutil.copytree(root, w + '/v', ignore=shutil.ignore_patterns('.git', 'evidence', '__pycache__'))
        os.makedirs(w + '/v/evidence')
        r = subprocess.run([w + '/v/run.sh', s['property']], env=dict(os.environ, VERIF_REPO=w + '/r'), capture_output=True, text=True) if os.path.exists(w + '/v/checks/%s.py' % s['property']) else None
        print(s['id'], s['property'], 'clean', clean.returncode, clean.stderr[-300:] if clean.returncode else '', 'patched', bad.returncode, bad.stderr.strip()[-80:],
              'check', r and r.returncode, [l for l in r.stdout.splitlines() if 'clause' in l][:2] if r else '', flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
