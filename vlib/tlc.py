"""Run TLC."""
import os, re, subprocess, shutil, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


def run(tmp, module, cfg=None, env=None, workers=8, heap='4g', timeout=800, args=()):
    """Returns dict(out, rc, states, distinct, depth). Model errors raise TlcError."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=tmp)
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC, '-cp', CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-nowarning',
           '-config', os.path.join(SPEC, (cfg or module) + '.cfg') if not (cfg or '').startswith('/') else cfg,
           *args, os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise TlcError('TLC timed out on %s' % (cfg or module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode(errors='replace')
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    d = re.findall(r'depth of the complete state graph search is (\d+)', out)
    return dict(out=out, rc=p.returncode,
                states=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0, depth=int(d[-1]) if d else 0)


def printed(tmp, module, cfg_text):
    """what an emitting invariant of the module printed (as << "SHAPE", json >>), and the run"""
    import json
    fd, p = tempfile.mkstemp(prefix='gen-', suffix='.cfg', dir=tmp)
    with os.fdopen(fd, 'w') as f:
        f.write(cfg_text)
    r = run(tmp, module, p, heap='2g')
    if r['rc'] != 0 or 'No error has been found' not in r['out']:
        raise TlcError('generation failed:\n' + r['out'][-2000:])
    return [json.loads(m) for m in re.findall(r'<<"SHAPE", "(\[.*?\])">>', r['out'].replace('\\"', '"'))], r


def shapes(tmp, kind, depth, sizes, total=0):
    """all behaviours of spec/Gen.tla with these constants, as lists of (handle, size)"""
    o, r = printed(tmp, 'Gen', 'INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Kind = "%s"\n'
                   ' Depth = %d\n Sizes = {%s}\n Total = %d\n' % (kind, depth, ','.join(map(str, sizes)), total))
    out = [[tuple(x) for x in m] for m in o]
    out.sort()
    return out, r


def histories(tmp, start, ops, depth, num, seed, near=3):
    """num histories simulated from spec/Hist.tla: lists of (operation, handles)"""
    import json
    fd, p = tempfile.mkstemp(prefix='hist-', suffix='.cfg', dir=tmp)
    with os.fdopen(fd, 'w') as f:
        f.write('INIT Init\nNEXT Next\nINVARIANTS WellTyped Emit\nCHECK_DEADLOCK FALSE\n')
    with open(p + '.json', 'w') as f:
        json.dump(dict(start=start, ops=ops, depth=depth, near=near, sampled=True), f)
    r = run(tmp, 'Hist', p, env={'HIST': p + '.json'}, workers=1, heap='2g',
            args=('-simulate', 'num=%d' % num, '-depth', str(3 * depth + 5), '-seed', str(seed)))
    if 'Error:' in r['out'] or 'Simulation using seed' not in r['out']:
        raise TlcError('generation failed:\n' + r['out'][-2000:])
    r['states'] = r['distinct'] = int(re.findall(r'The number of states generated: (\d+)', r['out'])[-1])
    o = [json.loads(m) for m in re.findall(r'<<"SHAPE", "(\[.*?\])">>', r['out'].replace('\\"', '"'))]
    out = []
    for h in o:
        if h not in out:
            out.append(h)
    return out, r
