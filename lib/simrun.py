"""Runs one scenario of the simulated jom in a scratch directory of its own and returns what was observed."""
import json, os, shutil, subprocess, tempfile

BASE = 1577836800
SCRATCH = None
ROOT = os.geteuid() == 0       # winsim gives up root rights, so its files belong to nobody

def scratch_root():
    global SCRATCH
    if SCRATCH is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        SCRATCH = tempfile.mkdtemp(prefix='vjom.', dir=base)
        os.chmod(SCRATCH, 0o755)
    return SCRATCH

def cleanup():
    global SCRATCH
    if SCRATCH and os.path.basename(SCRATCH).startswith('vjom.'):
        shutil.rmtree(SCRATCH, ignore_errors=True)
    SCRATCH = None

class Result:
    __slots__ = ('overdue', 'events', 'rc', 'out', 'err', 'left', 'texts', 'scenario', 'more')
    def __repr__(self):
        return 'rc=%s\n%s' % (self.rc, '\n'.join(json.dumps(e) for e in self.events))

def fmt(r, skip=('choice',)):
    o = ['rc=%s' % r.rc]
    for e in r.events:
        if e['e'] in skip: continue
        o.append(' '.join('%s=%s' % (k, json.dumps(v)) for k, v in e.items() if k != 'n' and v not in ({}, [])))
    return '\n'.join(o)

import multiprocessing
OVERDUE = multiprocessing.Value('i', 0)      # runs that did not end, in all processes of a campaign
_n = 0
def run(exe, files, args=(), scenario=None, env=None, cwd=None, keep=False, timeout=40):
    """files: {name: content | (content, mtime)}; a value of None makes a directory.  Names use '/'."""
    global _n
    _n += 1
    d = os.path.join(scratch_root(), 'r%d.%d' % (os.getpid(), _n))
    w = os.path.join(d, 'w')
    os.makedirs(os.path.join(w, 'tmp'))
    os.chmod(w, 0o777); os.chmod(os.path.join(w, 'tmp'), 0o777)
    try:
        for name, v in files.items():
            p = os.path.join(w, name)
            if v is None:
                os.makedirs(p, exist_ok=True)
                os.chmod(p, 0o777)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.dirname(p) != w: os.chmod(os.path.dirname(p), 0o777)
            content, mt = v if isinstance(v, tuple) else (v, 10)
            with open(p, 'wb') as f:
                f.write(content if isinstance(content, bytes) else content.encode('utf-8'))
            os.utime(p, (BASE + mt, BASE + mt))
            os.chmod(p, 0o666)
            if ROOT: os.chown(p, 65534, 65534)
        sc = os.path.join(d, 'sc.json'); lg = os.path.join(d, 'log')
        with open(sc, 'w') as f:
            json.dump(scenario or {}, f)
        e = {'SIM_LOG': lg, 'SIM_SCENARIO': sc}
        e.update(env or {})
        r = Result()
        r.overdue = False
        r.events = []
        try:
            r.rc = subprocess.run([exe] + list(args), cwd=os.path.join(w, cwd) if cwd else w, env=e, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            r.rc = 97           # it is busy for ever, a thousand times longer than any run takes: the same as a hang
            r.overdue = True
        try:
            with open(lg) as f:
                for line in f:
                    try: r.events.append(json.loads(line))
                    except ValueError: pass
        except FileNotFoundError:
            pass
        if r.overdue: r.events.append({'e': 'end', 'how': 'hang', 'running': []})
        elif r.rc == 97 and r.events and r.events[-1].get('n') == 999999: r.overdue = True
        if r.overdue:
            with OVERDUE.get_lock(): OVERDUE.value += 1
        r.out = ''.join(x['d'] for x in r.events if x['e'] == 'w' and x['s'] == 1)
        r.err = ''.join(x['d'] for x in r.events if x['e'] == 'w' and x['s'] == 2)
        left, texts = {}, {}
        had = {n.replace('/', os.sep).lower(): v for n, v in files.items()}
        for root, _, fs in os.walk(w):
            for f in fs:
                q = os.path.join(root, f)
                n = os.path.relpath(q, w)
                left[n] = int(os.stat(q).st_mtime) - BASE
                v = had.get(n.lower())
                if v is None or left[n] != (v[1] if isinstance(v, tuple) else 10):
                    with open(q, 'rb') as fh: texts[n] = fh.read().decode('utf-8', 'replace')     # created or changed
        r.left, r.texts = left, texts
        r.scenario = scenario
        return r
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
