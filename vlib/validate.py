"""Check recorded scenarios against the specification (spec/Trace.tla)."""
import concurrent.futures as cf, json, os, re
from . import tlc


def write(path, recs, ids):
    with open(path, 'w') as f:
        for sid in ids:
            f.write('{"id":%s,"ev":[%s]}\n' % (json.dumps(sid), ','.join(recs[sid])))


def cfg(tmp, known, deadlock, tag='', props=()):
    p = os.path.join(tmp, 'trace-%s%s.cfg' % (tag, 'd' if deadlock else 'n'))
    with open(p, 'w') as f:
        f.write('SPECIFICATION TSpec\nALIAS Where\nCONSTANT KnownDeviations = {%s}\nCHECK_DEADLOCK %s\n'
                % (','.join('"%s"' % k for k in sorted(known)), 'TRUE' if deadlock else 'FALSE'))
        f.writelines('PROPERTY %s\n' % p for p in props)
    return p


BROKEN = 4         # scenarios set aside like that, at most


def _check(tmp, recs, known, tag, heap, timeout, workers, props):
    ids = sorted(recs)
    path = os.path.join(tmp, tag + '.ndjson')
    write(path, recs, ids)
    st = di = 0
    acc, kn, broken = set(), set(), []
    while True:
        r = tlc.run(tmp, 'Trace', cfg(tmp, known, False, tag, props), env={'TRACE': path}, heap=heap, timeout=timeout,
                    workers=workers)
        st, di = st + r['states'], di + r['distinct']
        acc |= {ids[int(m) - 1] for m in re.findall(r'<<"ACCEPTED", (\d+)>>', r['out'])}
        kn |= set(re.findall(r'<<"KNOWN", "([^"]+)">>', r['out']))
        if r['rc'] == 0 and 'Model checking completed. No error' in r['out']:
            break
        # A record the specification cannot even evaluate (a field it needs is not there) is not explained
        # by it.  Set the scenario aside and go on with the others.
        m = re.findall(r'/\\ vSid = (\d+)', r['out'])
        if ('The behavior up to this point is' not in r['out'] or not m or len(broken) >= BROKEN
                or re.search('StackOverflow|OutOfMemory|heap space', r['out'])):
            raise tlc.TlcError('trace validation failed to run:\n' + r['out'][-3000:])
        broken.append(ids[int(m[-1]) - 1])
        ids = [i for i in ids if i not in broken]
        if not ids:
            break
        write(path, recs, ids)
    os.unlink(path)
    return acc, kn, broken, st, di


LOT = 4 << 20      # bytes of records one TLC run gets; TLC goes breadth first, so a run holds them all at once


def check(tmp, recs, known, tag='t', timeout=800):
    """Returns dict(accepted, rejected, known, states, distinct)."""
    w = {i: sum(map(len, recs[i])) for i in recs}
    if sum(w.values()) <= 4 * LOT:
        parts, par = [recs], 1
    else:
        parts, par, cur, n = [], 4, {}, 0
        for i in sorted(recs, key=lambda i: (-w[i], i)):
            if cur and n + w[i] > LOT:
                parts.append(cur)
                cur, n = {}, 0
            cur[i] = recs[i]
            n += w[i]
        parts.append(cur)
    with cf.ThreadPoolExecutor(par) as ex:
        rs = list(ex.map(lambda a: _check(tmp, a[1], known, '%s-%d' % (tag, a[0]), '6g' if par == 1 else '4g',
                                          timeout, 8 if par == 1 else 2,
                                          ('Frozen', 'StaysFixed') if par == 1 else ()), enumerate(parts)))
    acc = set().union(*(r[0] for r in rs))
    return dict(accepted=acc, rejected=[i for i in sorted(recs) if i not in acc],
                known=sorted(set().union(*(r[1] for r in rs))), broken=sum((r[2] for r in rs), []),
                states=sum(r[3] for r in rs), distinct=sum(r[4] for r in rs))


def locate(tmp, recs, sid, known, timeout=120):
    """Index (0-based) of the first call record of scenario sid that no action explains."""
    path = os.path.join(tmp, 'loc.ndjson')
    write(path, recs, [sid])
    r = tlc.run(tmp, 'Trace', cfg(tmp, known, True), env={'TRACE': path}, workers=1, timeout=timeout)
    if 'Deadlock reached' not in r['out'] and 'The behavior up to this point is' not in r['out']:
        return None
    pos = re.findall(r'/\\ vPos = (\d+)', r['out'])
    return int(pos[-1]) - 1 if pos else None
