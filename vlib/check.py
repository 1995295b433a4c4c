"""Run the check of one property: models, scenario generation, execution of the real code, trace validation."""
import collections, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from . import aim, build, drive, gens, hist, more, often, tlc, validate

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')

# design models checked exhaustively, per property (spec/<name>.tla with spec/<name>.cfg)
PIPE1, PIPE2, PIPEE, PIPEN = [('MCPipe', 'MCPipe_' + x) for x in ('cfb1', 'cfb2', 'ecb', 'nest')]
READ1, READ2, READE = [('MCReader', 'MCReader_' + x) for x in ('cfb1', 'cfb2', 'ecb')]
CACHE = ('Cache', 'MCCache')
MODELS = {'C01': ['MCVectors', 'MCFeistel'], 'C02': ['MCFeistel', 'MCVectors'], 'C03': ['MCVectors', 'MCWords'],
          'C04': ['MCWords'], 'C05': ['MCWords'], 'C06': ['MCVectors'], 'C07': ['MCVectors'], 'C08': ['MCWords'],
          'C09': [PIPE1, PIPE2], 'C10': [READ1, READ2], 'C11': [PIPEN, READ2], 'C12': [PIPEE, READE],
          'C13': ['MCMac', 'MCVectors'], 'C14': ['MCVectors'], 'C15': ['MCMac', 'MCVectors'], 'C16': ['MCVectors', 'MCIter'],
          'C17': ['MCIter'], 'C18': [PIPEN, 'MCIter'], 'C19': [CACHE], 'C20': [CACHE], 'C21': [READ1, READE, CACHE],
          'C22': ['MCMac', PIPE1]}
# variants of the models with the mistake they exist to exclude: each must fail (thorough tier)
NEGATIVE = {'C10': ('MCReader', 'MCReader_cfb1', 'Gather = TRUE', 'Gather = FALSE'),
            'C12': ('MCReader', 'MCReader_ecb', 'Gather = TRUE', 'Gather = FALSE'),
            'C13': ('MCMac', 'MCMac', 'Gather = TRUE', 'Gather = FALSE'),
            'C19': ('Cache', 'MCCache', 'Early = FALSE', 'Early = TRUE'),
            'C20': ('Cache', 'MCCache', 'Locked = TRUE', 'Locked = FALSE')}
# how the driver is run
STACK_KB = {'C22': 256}
LIMIT = {'C22': 150}


def findings():
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        return json.load(f)


def known_deviations():
    return {x['deviation'] for x in findings()['findings']}


def variants(prop):
    return ['san', 'opt'] + (['tsan'] if prop == 'C20' and tsan_works() else [])


def tsan_works():
    """ThreadSanitizer cannot start everywhere (address space layout)"""
    with tempfile.TemporaryDirectory(prefix='goost-tsan-') as d:
        p = subprocess.run('echo "int main(){return 0;}" > t.cpp && g++ -fsanitize=thread -o t t.cpp && ./t', shell=True, cwd=d,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return p.returncode == 0


def fits(variant, sid):
    return sid.startswith('free') if variant == 'tsan' else variant == 'opt' or not sid.startswith('bulk')


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix='goost-%s-' % prop, dir=os.environ.get('TMPDIR') or '/tmp')
        self.known = known_deviations()
        self.seen_known = set()
        self.states = self.trans = self.validated = 0
        self.models = []
        self.notes = []
        self.samples = []
        self.violations = []
        self.info = {}

    # ---- design models
    def model(self, m):
        name, cfg = m if isinstance(m, tuple) else (m, m)
        cfgs = [cfg] + ([cfg + 'T'] if self.tier == 'thorough' and
                        os.path.exists(os.path.join(tlc.SPEC, cfg + 'T.cfg')) else [])
        out = []
        for c in cfgs:
            t = time.time()
            r = tlc.run(self.tmp, name, c, heap='3g', workers=4, timeout=800)
            if r['rc'] != 0 or 'No error has been found' not in r['out']:
                raise tlc.TlcError('design model %s: the specification breaks its own property\n%s' % (c, r['out'][-3000:]))
            out.append(dict(model=c, states=r['distinct'], transitions=r['states'], depth=r['depth'],
                            wall_s=round(time.time() - t, 1)))
        return out

    def negative(self, name, cfg, a, b):
        p = os.path.join(self.tmp, 'neg.cfg')
        with open(os.path.join(tlc.SPEC, cfg + '.cfg')) as f, open(p, 'w') as g:
            g.write(f.read().replace(a, b))
        r = tlc.run(self.tmp, name, p, heap='3g', workers=4)
        if r['rc'] == 0:
            raise tlc.TlcError('%s with %s should fail and does not' % (cfg, b))
        return [dict(model='%s with %s (must fail, fails)' % (cfg, b), states=r['distinct'], transitions=r['states'])]

    # ---- conformance
    def validate(self, recs, tag):
        r = validate.check(self.tmp, recs, self.known, tag)
        self.states += r['distinct']
        self.trans += r['states']
        self.validated += len(recs)
        self.seen_known |= set(r['known'])
        return r

    def drive(self, exe, tag, scens):
        return drive.run(exe, self.tmp, tag, scens, stack_kb=STACK_KB.get(self.prop, 8192), limit=LIMIT.get(self.prop, 60) * (4 if self.tier == 'thorough' else 1))

    def conform(self, exes, scens):
        """scens: [(id, lines)]; runs every variant, validates every different trace"""
        byid = dict(scens)
        with cf.ThreadPoolExecutor(2) as ex:
            got = dict(zip(exes, ex.map(lambda v: self.drive(exes[v], self.prop + v, [x for x in scens if fits(v, x[0])]),
                                        exes)))
        self.info['run_s'] = round(time.time() - self.t0, 1)
        done = {}
        bad = []
        for v, (recs, notes) in got.items():
            todo = {s: r for s, r in recs.items() if done.get(s) != r}
            for s, r in todo.items():
                done.setdefault(s, r)
            if not todo:
                continue
            r = self.validate(todo, self.prop + v)
            for sid in r['rejected']:
                bad.append((v, sid, recs[sid], notes.get(sid, ''), sid in r['broken']))
            if not self.samples:
                for sid in sorted(recs)[:: max(1, len(recs) // 3)][:3]:
                    self.samples.append({'id': sid, 'script': [x[:160] for x in byid[sid][:8]],
                                         'trace': [x[:300] for x in recs[sid][:4]]})
        self.info['scenarios'] = len(scens)
        self.info['events'] = sum(len(r) for r in done.values())
        ops = collections.Counter(m for r in done.values() for e in r for m in re.findall(r'"op": ?"(\w+)"', e))
        self.info['calls_by_action'] = dict(sorted(ops.items()))
        self.info['outcomes'] = dict(collections.Counter(m or 'returned' for r in done.values() for e in r
                                                         for m in re.findall(r'"x": ?"(\w*)"', e)))
        self.info['variants'] = sorted(exes)
        # a rejection counts when a second execution is rejected as well
        per = {}
        for b in bad:
            per.setdefault(re.sub(r'\.\d+$', '', b[1]), []).append(b)
        order = []
        while per:                       # at most one of each kind first
            for k in list(per):
                order.append(per[k].pop(0))
                if not per[k]:
                    del per[k]
        for v, sid, recs, note, broken in order:
            if len(self.violations) >= 3 or (self.violations and time.time() - self.t0 > 240):
                break
            hit = False
            for n in range(10 if self.prop == 'C20' else 3):
                again, notes = self.drive(exes[v], 're', [(sid, byid[sid])])
                if sid not in again:
                    continue
                r = self.validate(again, 're')
                if r['rejected']:
                    hit = True
                    break
            if not hit:
                self.notes.append('%s/%s was rejected once and accepted when run again' % (v, sid))
                continue
            at = None
            if time.time() - self.t0 < 400:
                try:
                    at = validate.locate(self.tmp, again, sid, self.known, timeout=120)
                except tlc.TlcError:
                    pass
            self.violation({'scenario': sid, 'variant': v, 'at': at,
                            'script': byid[sid] if at is None else byid[sid][:at + 1],
                            'record': again[sid][at][:4000] if at is not None and at < len(again[sid]) else None,
                            'note': notes.get(sid, ''),
                            'meaning': 'no action of spec/Goost.tla explains this record of the real code'})
        self.info['rejected'] = len(bad)

    def violation(self, what):
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        what = dict(property=self.prop, **what)
        with open(p, 'w') as f:
            json.dump(what, f, indent=1)
        self.violations.append(p)
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('  %s' % json.dumps({k: v for k, v in what.items() if k in ('scenario', 'variant', 'at', 'record', 'note')})[:1500])
        sys.stdout.flush()

    def main(self):
        self.t0 = time.time()
        for f in glob.glob(os.path.join(EVID, 'replay', self.prop + '-*.json')):
            os.unlink(f)
        with cf.ThreadPoolExecutor(3) as ex:
            ms = [ex.submit(self.model, m) for m in MODELS.get(self.prop, [])]
            if self.tier == 'thorough' and self.prop in NEGATIVE:
                ms.append(ex.submit(self.negative, *NEGATIVE[self.prop]))
            if True:
                exes = {v: e for (h, v), e in build.build(self.tmp, [('drv', v) for v in variants(self.prop)]).items()}
                c = gens.Ctx(self.tmp, self.seed, self.tier, self.prop)
                c.exe = exes['opt']
                scens = getattr(gens, 'gen_' + self.prop)(c)
                if hasattr(more, 'more_' + self.prop):
                    getattr(more, 'more_' + self.prop)(c, scens)
                more.bulk_more(c, scens)
                often.more_often(c, scens)
                hist.more(c, scens)
                aim.more(c, scens)
                if self.prop == 'C20' and 'tsan' not in exes:
                    self.notes.append('ThreadSanitizer does not start here: data races are only seen through their effects')
                self.states += c.gen_states
                self.trans += c.gen_trans
                self.info['generated_behaviours'] = c.gen_shapes
                self.conform(exes, scens)
            for m in ms:
                for r in m.result():
                    self.models.append(r)
                    self.states += r['states']
                    self.trans += r['transitions']
        self.evidence()
        for x in findings()['findings']:
            if x['property'] == self.prop:
                if x['deviation'] in self.seen_known:
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, x['what']))
                else:
                    print('note: the listed finding %s no longer shows' % x['deviation'])
        for n in self.notes:
            print('note: ' + n)
        print('%s: %s (%d traces validated, %d states, %.1f s)' % (
            self.prop, 'VIOLATED' if self.violations else 'held', self.validated, self.states, time.time() - self.t0))
        return 1 if self.violations else 0

    def evidence(self):
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.validated,
                   models=self.models, samples=self.samples, exhaustive=False, **self.info)
        if self.notes:
            cov['notes'] = self.notes
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                           assumptions=['TLC, the compilers and the recording driver are trusted',
                                        'conformance covers the recorded executions; the models cover their constants'],
                           wall_s=round(time.time() - self.t0, 2), violations=len(self.violations)), f, indent=1)



def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    r = Run(prop, 'thorough' if tier == 'thorough' else 'quick', seed)
    try:
        return r.main()
    except (build.BuildError, drive.DriverError, tlc.TlcError) as e:
        print('ERROR: %s: %s' % (type(e).__name__, e))
        if r.violations:
            return 1
        return 2
    except Exception:
        traceback.print_exc()
        return 1 if r.violations else 2
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)
