"""What all checks share: building the simulator, running campaigns in parallel, TLC, evidence and verdicts."""
import hashlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('JOM_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
JAVA = ['java', '-XX:+UseParallelGC', '-Xss64m',
        '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']
NPROC = int(os.environ.get('VERIF_PROCS', '8'))

class Failure(Exception):
    """The check itself cannot give an answer."""

def build_sim(asan=False):
    out = os.path.join(BUILD, 'asan' if asan else 'sim')
    exe = os.environ.get('JOM_SIM')
    if exe and not asan:
        return exe
    cmd = [sys.executable, os.path.join(ROOT, 'sim', 'build.py'), '--repo', REPO, '--out', out]
    if asan: cmd.append('--asan')
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Failure('cannot build jom with the simulated operating system:\n' + p.stdout.decode(errors='replace')[-3000:])
    return os.path.join(out, 'winsim')

# ---------------------------------------------------------------- TLC
class TlcResult:
    states = 0; distinct = 0; out = ''; rc = 0; prints = ()

_tlcn = 0
def tlc(module, cfg=None, data=None, env=None, workers=None, args=(), timeout=800, heap='6g', extra=None):
    """Runs TLC on spec/<module>.tla; data (if given) is handed over as a JSON file through the environment."""
    global _tlcn
    _tlcn += 1
    d = os.path.join(BUILD, 'tlc', '%s.%d.%d' % (module, os.getpid(), _tlcn))
    os.makedirs(d, exist_ok=True)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.cfg')): shutil.copy(os.path.join(SPEC, f), d)
        for f, t in (extra or {}).items(): open(os.path.join(d, f), 'w').write(t)
        e = dict(os.environ)
        if data is not None:
            with open(os.path.join(d, 'data.json'), 'w') as f: json.dump(data, f)
            e['TRACES'] = os.path.join(d, 'data.json')
        e.update(env or {})
        cmd = JAVA[:1] + ['-Xmx' + heap] + JAVA[1:] + ['-workers', str(workers or NPROC), '-metadir', os.path.join(d, 'meta'), '-nowarning', '-noGenerateSpecTE',
               '-config', (cfg or module) + '.cfg'] + list(args) + [module + '.tla']
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        r = TlcResult()
        r.out = p.stdout.decode(errors='replace'); r.rc = p.returncode
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.out)
        if m: r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        r.ok = 'No error has been found' in r.out
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tlc_fail(r):
    raise Failure('TLC did not finish as expected:\n' + r.out[-4000:])

# ---------------------------------------------------------------- parallel campaign
def _worker(args):
    fn, item = args
    try:
        return ('ok', fn(item))
    except Exception:
        return ('error', traceback.format_exc())

def _init():
    import simrun, signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    simrun.SCRATCH = None

def campaign(fn, items, budget=None, chunk=1, procs=None):
    """fn(item) in NPROC processes; stops handing out items when the time budget is used up.  Yields the results."""
    import simrun
    root = simrun.scratch_root()
    t0 = time.time()
    ctx = mp.get_context('fork')
    def feed():
        for it in items:
            if budget is not None and time.time() - t0 > budget or simrun.OVERDUE.value > 5: return
            yield (fn, it)
    with ctx.Pool(procs or NPROC) as pool:
        # bounded look-ahead so that the budget is honoured
        pend = []
        src = feed()
        done = False
        while True:
            while not done and len(pend) < 4 * (procs or NPROC):
                try: pend.append(pool.apply_async(_worker, (next(src),)))
                except StopIteration: done = True
            if not pend: break
            k, v = pend.pop(0).get()
            if k == 'error': raise Failure('a run of the campaign failed:\n' + v)
            yield v

# ---------------------------------------------------------------- verdict
class Check:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.violations = []     # (signature, title, replay dict)
        self.notes = []
    def quick(self): return self.tier == 'quick'
    def left(self, total): return max(0.0, total - (time.time() - self.t0))
    def add(self, key, n=1): self.cov[key] = self.cov.get(key, 0) + n
    def sample(self, x, limit=3):
        if len(self.samples) < limit: self.samples.append(x)
    def violation(self, sig, title, replay):
        if len(self.violations) < 50: self.violations.append((sig, title, replay))
    def finish(self):
        known = load_known()
        bad, kn = [], {}
        for sig, title, rep in self.violations:
            k = next((x for x in known if x['property'] == self.prop and x.get('signature') == sig), None)
            if k: kn[k['id']] = k
            else: bad.append((sig, title, rep))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': dict(self.cov, samples=self.samples), 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(bad)}
        if kn: ev['coverage']['known_findings_seen'] = sorted(kn)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in kn.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        for n in self.notes: print('note: ' + n)
        print('%s %s: %s, %.1f s' % (self.prop, self.tier, ', '.join('%s=%s' % (k, v) for k, v in self.cov.items() if isinstance(v, (int, float))), time.time() - self.t0))
        if bad:
            d = os.path.join(BUILD, 'replay'); os.makedirs(d, exist_ok=True)
            for i, (sig, title, rep) in enumerate(bad[:5]):
                path = os.path.join(d, '%s.%d.json' % (self.prop, i))
                with open(path, 'w') as f: json.dump({'property': self.prop, 'what': title, 'signature': sig, 'replay': rep}, f, indent=1, default=str)
                print('  %s' % title)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        return 0

def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p)).get('findings', [])

def sig_of(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=lambda b: b.decode("latin1")).encode()).hexdigest()[:16]
