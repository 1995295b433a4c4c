#!/usr/bin/env python3
"""How tight is the binding: takes executions recorded from the real code, spoils one result in each and counts
the spoiled ones the specification still explains.   usage: mutate.py PROP [scenarios [seed]]"""
import collections, json, os, random, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import aim, build, check, drive, gens, hist, more, validate


def ways(e):
    """[(name, function that spoils a copy)]"""
    w = []
    def flip(e):
        i = R.randrange(len(e['out']))
        e['out'][i] ^= 1 << R.randrange(8 if len(e['out']) != 2 else 16)
    def setx(v):
        def f(e):
            e['x'] = v
            for k in ('out', 'nul', 'mem', 'node'):
                e.pop(k, None)
        return f
    if isinstance(e.get('out'), list):
        if e['out']:
            w.append(('out: a bit', flip))
            w.append(('out: shorter', lambda e: e['out'].pop()))
        w.append(('out: longer', lambda e: e['out'].append(0)))
    if e['x'] == '' and e['op'] not in ('fuse', 'drop'):
        w += [('x: exc', setx('exc')), ('x: other', setx('other')), ('x: fault', setx('fault'))]
    elif e['x'] == 'fault':
        w += [('x: exc for fault', setx('exc')), ('x: other for fault', setx('other')), ('x: none for fault', setx(''))]
    elif e['x'] == 'exc':
        w += [('x: none for exc', setx(''))]
    for k in ('nul', 'mem', 'b'):
        if isinstance(e.get(k), bool):
            w.append((k, lambda e, k=k: e.update({k: not e[k]})))
    if e['op'] == 'i_size' and 'n' in e and e['x'] == '':
        w.append(('n', lambda e: e.update(n=e['n'] + R.choice([-1, 1]))))
    if e.get('w') and e['op'].startswith('s_'):
        w.append(('w: one less', lambda e: e['w'].pop(R.randrange(len(e['w'])))))
        w.append(('w: twice', lambda e: e['w'].append(dict(e['w'][-1]))))
        x = [i for i in range(len(e['w'])) if e['w'][i]['d']]
        if x:
            def wd(e):
                d = e['w'][R.choice(x)]['d']
                d[R.randrange(len(d))] ^= 1 << R.randrange(8)
            w.append(('w: a bit', wd))
        w.append(('w: from', lambda e: e['w'][0].update(f=e['w'][0]['f'] + R.choice([-1, 1]))))
        w.append(('w: to', lambda e: e['w'][-1].update(t=e['w'][-1]['t'] + 1)))
    if e.get('u'):
        w.append(('u: one less', lambda e: e['u'].pop(R.randrange(len(e['u'])))))
        w.append(('u: twice', lambda e: e['u'].append(dict(e['u'][-1]))))
        def uv(e):
            v = e['u'][R.randrange(len(e['u']))]['v']
            v[R.randrange(len(v))] ^= 1
        w.append(('u: value', uv))
        w.append(('u: ok', lambda e: e['u'][-1].update(ok=not e['u'][-1]['ok'])))
        w.append(('u: index', lambda e: e['u'][-1].update(i=e['u'][-1]['i'] ^ 1)))
    return w


prop = sys.argv[1]
n = int(sys.argv[2]) if len(sys.argv) > 2 else 400
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
R = random.Random(seed)
r = check.Run(prop, 'quick', seed)
r.t0 = 0
try:
    exe = build.build(r.tmp, [('drv', 'opt')])[('drv', 'opt')]
    c = gens.Ctx(r.tmp, seed, 'quick', prop)
    c.exe = exe
    sc = getattr(gens, 'gen_' + prop)(c)
    if hasattr(more, 'more_' + prop):
        getattr(more, 'more_' + prop)(c, sc)
    hist.more(c, sc)
    sc = [x for x in sc if check.fits('opt', x[0])]
    sc = R.sample(sc, min(n, len(sc)))
    recs, _ = r.drive(exe, 'm', sc)
    bad, how = {}, {}
    for s, ev in sorted(recs.items()):
        ev = [json.loads(e) for e in ev]
        can = collections.defaultdict(list)
        for i, e in enumerate(ev):
            for t in ([x for ts in e['ts'] for x in ts] if e['op'] == 'par' else [e]):
                for name, f in ways(t):
                    can[t['op'] + ' ' + name].append((i, t, f))
        for m in range(min(4, len(can))):    # kinds of spoiling, all equally likely
            k = R.choice(sorted(can))
            i, t, f = R.choice(can[k])
            keep = json.dumps(t)
            f(t)
            bad['%s~%d' % (s, m)] = [json.dumps(e) for e in ev]
            how['%s~%d' % (s, m)] = (k, i, keep[:300], json.dumps(t)[:300])
            t.clear()
            t.update(json.loads(keep))
    v = dict(accepted=set())
    ids = sorted(bad)
    validate.BROKEN = 10 ** 6
    while ids:
        v['accepted'] |= validate.check(r.tmp, {i: bad[i] for i in ids[:100]}, r.known, 'mut')['accepted']
        ids = ids[100:]
    tot, acc = collections.Counter(), collections.Counter()
    for i, (k, at, a, b) in how.items():
        tot[k] += 1
        if i in v['accepted']:
            acc[k] += 1
            print('ACCEPTED %s at %d: %s\n   was %s\n   now %s' % (i, at, k, a, b))
    print('%s: %d spoiled executions, %d explained all the same' % (prop, sum(tot.values()), sum(acc.values())))
    for k in sorted(acc):
        print('  %-30s %d of %d' % (k, acc[k], tot[k]))
finally:
    shutil.rmtree(r.tmp, ignore_errors=True)
