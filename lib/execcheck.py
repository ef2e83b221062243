"""Properties of the scheduler: recorded runs of the real program validated against Exec.tla."""
import itertools, json, random, re
import engine as E, execgen as G, simrun

EXE = None

def _one(item):
    seed, prof, limit, modes, base = item
    rng = random.Random(seed)
    cfg = G.gen(rng, **{k: v for k, v in prof.items() if not k.startswith('_')})
    cfg['hash'] = rng.choice([0, 0, 1, 7])
    for k, v in (prof.get('_set') or {}).items():
        cfg[k] = v(rng) if callable(v) else v
    if prof.get('_post'): POST[prof['_post']](cfg, rng)
    lim = limit if rng.random() < 0.85 else 2 * limit
    out, seen = [], set()
    runs = G.explore(EXE, cfg, lim, rng, modes, base)
    for sc, r in runs:
        try: ev = G.events(cfg, r)
        except G.Unmapped as u: ev = [{'a': 'U', 'cmd': str(u)}]
        k = json.dumps(ev)
        if k in seen: continue
        seen.add(k)
        out.append((ev, sc))
    return cfg, out, len(runs)

def _post_notparallel(cfg, rng):
    cfg['notparallel'] = True; cfg['jarg'] = rng.randint(2, 4); cfg['J'] = 1; cfg['ext'] = []; cfg['sub'] = None
def _post_default(cfg, rng):
    cfg['nojarg'] = True; cfg['cpus'] = cfg['J']; cfg['sub'] = None; cfg['ext'] = []
def _post_ladder(cfg, rng):
    """layers of targets in which each depends on all of the layer below: the number of paths is exponential"""
    w, h = rng.choice([(2, 34), (3, 22), (2, 40)])
    n = w * h + 1
    cfg['deps'] = [[] if i < w else [j for j in range((i // w - 1) * w, min(i // w * w, n - 1))] for i in range(n)]
    cfg['deps'][n - 1] = list(range(n - 1 - w, n - 1))
    cfg['names'] = ['t%d' % i for i in range(n)]
    cfg['isfile'] = [False] * n
    cfg['sync'] = [[] for _ in range(n)]; cfg['groups'] = {}; cfg['inf'] = {}
    cfg['cmds'] = [[{'tol': 0, 'rc': 0, 'touch': False}] for _ in range(n)]
    if rng.random() < 0.8: cfg['cmds'][rng.randrange(2 * w)][0]['rc'] = 1
    cfg['mt'] = [0] * n
    cfg['goals'] = [n - 1]; cfg['K'] = rng.random() < 0.7; cfg['A'] = False
    if rng.random() < 0.4:
        # everything exists, and one target is older or newer than the others
        cfg['mt'] = [12] * n; cfg['mt'][rng.randrange(n)] = rng.choice([0, 11, 13])
        if rng.random() < 0.5: cfg['cmds'] = [[] if rng.random() < 0.3 and cfg['deps'][i] else c for i, c in enumerate(cfg['cmds'])]
    cfg['sub'] = None; cfg['ext'] = []
POST = {'notparallel': _post_notparallel, 'default': _post_default, 'ladder': _post_ladder}

def replay_of(cfg, sc):
    return {'makefile': G.makefile(cfg), 'args': G.args(cfg), 'env': G.env(cfg), 'files': {n: m for n, m in zip(cfg['names'], cfg['mt']) if m},
            'scenario': G.scenario(cfg, **sc)}

def confirm(cfg, sc):
    """The same run once more: a verdict counts only if it is reproducible."""
    r = G.run(EXE, cfg, sc)
    try: return G.events(cfg, r), r
    except G.Unmapped as u: return [{'a': 'U', 'cmd': str(u)}], r

def collect(check, profiles, budget, limit, modes=('auto', 'lazy'), base=None, max_traces=6000, max_events=400000):
    rng = random.Random(check.seed * 1000003 + 17)
    def items():
        while True:
            for p in profiles:
                yield (rng.randrange(1 << 48), p, p.get('_limit', limit), p.get('_modes', modes), dict(base or {}, **(p.get('_base') or {})))
    cfgs, traces, runs, nev = [], [], 0, 0
    it = items()
    for cfg, out, n in E.campaign(_one, it, budget):
        runs += n
        if nev > max_events or len(traces) > max_traces: continue
        cfgs.append(cfg)
        for ev, sc in out:
            traces.append((len(cfgs) - 1, ev, sc)); nev += len(ev)
    check.add('runs_of_the_program', runs)
    check.add('build_configurations', len(cfgs))
    return cfgs, traces

def validate(check, cfgs, traces, labels, module='ExecTrace'):
    """TLC over all traces; returns the violated rules per trace."""
    res = []
    odd = [k for k, (c, ev, sc) in enumerate(traces) if any(e['a'] == 'U' for e in ev)]
    for k in odd: res.append((k, [['unmapped', 0]]))
    good = [k for k in range(len(traces)) if k not in set(odd)]
    data = {'cfgs': [G.tla_cfg(c) for c in cfgs], 'traces': [{'c': traces[k][0] + 1, 'ev': traces[k][1]} for k in good]}
    if good:
        r = E.tlc(module, data=data)
        want = sum(len(traces[k][1]) + 1 for k in good)
        if r.distinct != want or not r.ok: E.tlc_fail(r)
        check.add('states', r.distinct); check.add('transitions', r.states)
        check.add('traces_validated_against_impl', len(good))
        for m in re.finditer(r'<<"@V", (\d+), (\{.*?\})>>', r.out, re.S):
            lab = [[a, int(b)] for a, b in re.findall(r'<<"(\w+)", (\d+)>>', m.group(2))]
            res.append((good[int(m.group(1)) - 1], sorted(lab, key=lambda x: x[1])))
    return res

def judge(check, cfgs, traces, res, labels):
    other = {}
    for k, lab in res:
        mine = [l for l in lab if l[0] in labels]
        if not mine:
            for l in lab: other[l[0]] = other.get(l[0], 0) + 1
            continue
        c, ev, sc = traces[k]
        if simrun.OVERDUE.value > 12: continue
        ev2, r = confirm(cfgs[c], sc)
        if ev2 != ev: 
            check.notes.append('a deviation was not reproducible and is not counted')
            continue
        rep = replay_of(cfgs[c], sc)
        rep['events'] = ev; rep['rules'] = lab
        check.violation(E.sig_of([rep['makefile'], rep['args'], sc]), 'rule %s broken at event %d of %d' % (mine[0][0], mine[0][1], len(ev)), rep)
    if other: check.notes.append('rules of other properties broken: %s' % other)
