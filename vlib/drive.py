"""Run scenarios on a built driver and collect their call records."""
import os, subprocess, concurrent.futures as cf, json

ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:'
                       'detect_stack_use_after_return=0:malloc_fill_byte=165:max_malloc_fill_size=65536:'
                       'handle_segv=1:hard_rss_limit_mb=3500',
       'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_bugs=1',
       'UBSAN_OPTIONS': 'print_stacktrace=0:exitcode=77', 'LC_ALL': 'C', 'PATH': os.environ.get('PATH', '')}
MAX_CRASHES = 12


class DriverError(Exception):
    pass


def parse(path):
    done, cur = [], None
    ended = False
    with open(path) as f:
        for l in f:
            l = l.rstrip('\n')
            if l.startswith('S '):
                cur = [l[2:], []]
                done.append(cur)
            elif l == 'END':
                ended = True
            elif l.startswith('{') and l.endswith('}'):
                cur[1].append(l)
    return done, ended


def _chunk(exe, tmp, name, scens, stack_kb, limit):
    """scens: list of (id, [lines]) -> {id: [json lines]} and notes about abnormal ends"""
    res, notes = {}, {}
    todo = list(scens)
    crashes = 0
    rnd = 0
    while todo:
        rnd += 1
        sf = os.path.join(tmp, '%s.%d.scr' % (name, rnd))
        tf = os.path.join(tmp, '%s.%d.out' % (name, rnd))
        with open(sf, 'w') as f:
            for sid, lines in todo:
                f.write('S %s\n' % sid)
                f.write('\n'.join(lines) + '\n')
        lim = '' if 'opt' not in os.path.basename(exe) else 'ulimit -v 4000000;'
        cmd = ['bash', '-c', 'ulimit -c 0; ulimit -s %d; ulimit -f 1000000; %s exec "$0" "$1" "$2"' % (stack_kb, lim),
               exe, sf, tf]
        why = ''
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=limit)
            rc, err = p.returncode, p.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired:
            rc, err, why = -1, '', 'timeout'
        got, ended = parse(tf) if os.path.exists(tf) else ([], False)
        if rc == 3 or (rc in (126, 127) and not got):
            raise DriverError('driver failed: ' + err[-500:])
        order = [s for s, _ in todo]
        for sid, ev in got:
            res[sid] = ev
        os.unlink(sf)
        if os.path.exists(tf):
            os.unlink(tf)
        if ended and rc == 0:
            break
        # abnormal end in the last scenario started (or, after END, while releasing its objects)
        if not got:
            raise DriverError('driver did not start: rc=%d %s' % (rc, err[-500:]))
        last = got[-1][0]
        kind = why or 'crash'
        n = len(res[last])
        lines = dict(todo)[last]
        op = lines[n] if n < len(lines) else '(end of scenario)'
        res[last].append(json.dumps({'op': kind, 'x': 'other', 'flt': False, 'u': []}))
        notes[last] = '%s during: %s\n%s' % (kind, op[:300], err[-1500:])
        crashes += 1
        if crashes >= MAX_CRASHES or why:
            break
        todo = todo[order.index(last) + 1:]
    return res, notes


def run(exe, tmp, tag, scens, stack_kb=8192, limit=120, par=8):
    """scens: list of (id, lines). Returns (records, notes)."""
    par = max(1, min(par, len(scens)))
    chunks = [scens[i::par] for i in range(par)]
    res, notes = {}, {}
    with cf.ThreadPoolExecutor(par) as ex:
        for r, n in ex.map(lambda a: _chunk(exe, tmp, '%s-%d' % (tag, a[0]), a[1], stack_kb, limit), enumerate(chunks)):
            res.update(r)
            notes.update(n)
    return res, notes
