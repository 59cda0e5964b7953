#!/usr/bin/env python3
"""seedcheck.py [--tests] [--checks] ID...: in a scratch copy of /repo, runs the
demonstration of a seeded change without and with its patch; --tests also builds
it and runs the stable tests' unit part is left to vcheck; --checks runs the
property's quick check against the patched copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opts = [a for a in sys.argv[1:] if a.startswith('-')]; ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
def sh(cmd, cwd, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors='replace')
for i in ids:
    d = os.path.join(V, 'seeded', i); meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        R, D = w + '/repo', w + '/demo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', R]); os.mkdir(D)
        for f in os.listdir(d):
            if f not in ('patch.diff', 'meta.json'): shutil.copy(os.path.join(d, f), D)
        res = []
        if '--nodemo' not in opts: res.append('demo clean: rc %d %s' % (lambda r: (r[0], r[1].strip()[-150:] if r[0] else ''))(sh(['bash', D + '/demo.sh'], R)))
        r = sh(['git', 'apply', d + '/patch.diff'], R)
        if r[0]: print(i, 'PATCH DOES NOT APPLY', r[1]); continue
        if '--nodemo' not in opts: res.append('patched: rc %d %s' % (lambda r: (r[0], r[1].strip()[-150:]))(sh(['bash', D + '/demo.sh'], R)))
        if '--checks' in opts:
            for p in [meta['property']]:
                r = sh(['python3', V + '/bin/check.py', p, 'quick'], V, dict(VH_REPO=R, VH_BUILD=w + '/b', VH_OUT=w + '/o'))
                res.append('%s: rc %d, %d violations' % (p, r[0], r[1].count('VIOLATION ')) + ('' if r[0] in (0, 1) else r[1][-500:]))
        print(i, '|', ' | '.join(res), flush=True)
    finally: shutil.rmtree(w, ignore_errors=True)
