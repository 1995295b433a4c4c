#!/usr/bin/env python3
"""Runs checks against the planted changes in /verif/seeded, each applied to a scratch copy of /repo.
usage: seedrun.py [-a] [id ...]    (-a: every check, not only that of the property the change breaks)"""
import json, os, shutil, subprocess, sys, tempfile, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '-a' in args
ids = [a for a in args if a != '-a'] or sorted(os.listdir(os.path.join(R, 'seeded')))
props = [c['property'] for c in json.load(open(os.path.join(R, 'MANIFEST.json')))['checks']]
out = os.environ.get('SEEDRUN_OUT')
for i in ids:
    d = os.path.join(R, 'seeded', i)
    own = json.load(open(os.path.join(d, 'meta.json')))['property']
    t = tempfile.mkdtemp(prefix='goost-seed-')
    try:
        subprocess.run('git clone -q /repo %s/r && git -C %s/r apply %s/patch.diff' % (t, t, d), shell=True, check=True)
        hit = []
        t0 = time.time()
        for p in (props if every else [own]):
            r = subprocess.run([os.path.join(R, 'bin/check'), p, 'quick'], env=dict(os.environ, GOOST_REPO=t + '/r'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode(errors='replace')
            if r.returncode == 1 and 'VIOLATION property=' + p in o:
                hit.append(p)
            elif r.returncode != 0:
                hit.append('%s?%d' % (p, r.returncode))
        line = '%-12s %s %s %.0fs' % (i, own, ('caught ' if own in hit else 'MISSED ') + ' '.join(hit), time.time() - t0)
        print(line, flush=True)
        if out:
            open(out, 'a').write(line + '\n')
    finally:
        shutil.rmtree(t, ignore_errors=True)
