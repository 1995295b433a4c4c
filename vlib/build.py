"""Build the library from the current working tree together with a harness program."""
import glob, os, subprocess, concurrent.futures as cf

REPO = os.environ.get('GOOST_REPO', '/repo')
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
BASE = ['-std=c++17', '-include', 'array', '-include', 'cstdint', '-w', '-g1', '-pthread', '-DNDEBUG']
# Variants.  "san": memory errors abort, locals and heap start with a pattern, so that an uninitialised
# or out-of-bounds value shows.  "opt": as a release build.  "tsan": data races abort.
VARIANTS = {
    'san': ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,bounds,shift-exponent,return,unreachable',
            '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern'],
    'opt': ['-O2', '-DREUSE'],
    'tsan': ['-O1', '-fsanitize=thread'],
}


class BuildError(Exception):
    pass


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'goost', '**', '*.cpp'), recursive=True))


def _compile(args):
    src, obj, flags = args
    p = subprocess.run(['g++', *BASE, *flags, '-I' + REPO, '-c', src, '-o', obj],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (src, p.stdout[-3000:]))


def build(tmp, wanted):
    """wanted: list of (harness, variant); returns {(harness, variant): executable}."""
    jobs, links = [], []
    libs = {}
    for harness, variant in wanted:
        d = os.path.join(tmp, 'obj-' + variant)
        os.makedirs(d, exist_ok=True)
        # the driver itself is compiled with less optimisation: it is the longest compile by far
        hsrc = sorted(glob.glob(os.path.join(HARNESS, harness + '*.cpp')))
        hobjs = []
        for h in hsrc:
            o = os.path.join(d, 'h-' + os.path.basename(h)[:-4] + '.o')
            fl = [f for f in VARIANTS[variant] if not f.startswith('-O')] + ['-O0' if variant != 'tsan' else '-O1']
            jobs.insert(0, (h, o, fl))
            hobjs.append(o)
        if variant not in libs:
            libs[variant] = []
            for n, s in enumerate(sources()):
                o = os.path.join(d, '%03d.o' % n)
                libs[variant].append(o)
                jobs.append((s, o, VARIANTS[variant]))
        links.append((harness, variant, hobjs))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(_compile, jobs))

    def link(x):
        harness, variant, hobjs = x
        exe = os.path.join(tmp, harness + '-' + variant)
        p = subprocess.run(['g++', *VARIANTS[variant], '-pthread', '-o', exe, *hobjs, *libs[variant]],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError('link\n' + p.stdout[-3000:])
        return (harness, variant), exe
    with cf.ThreadPoolExecutor(4) as ex:
        return dict(ex.map(link, links))
