"""Random build configurations for Exec.tla, their makefiles, and the translation of recorded runs into events."""
import random, json
import simrun

def gen(rng, n=(2, 6), files=(0, 2), edge=0.45, J=(1, 4), K=0.3, A=0.15, fail=0.15, tol=0.15, phony=0.25, stale=0.5,
        ncmds=(0, 3), sync=0.0, goals=1, side=0.0, crash=0.0, ignore=0.0, sub=0.0, ext=0.3, nocmd=0.2, wide=False, touchall=False, own=0.0, infer=0.15, dup=0.1, wipe=0.3):
    nt = rng.randint(*n)
    nf = rng.randint(*files)
    nodes = ['f'] * nf + ['t'] * nt
    # files are spread over the order
    if nf:
        head = nodes[:]
        rng.shuffle(head)
        while head[-1] == 'f': rng.shuffle(head)
        nodes = head
    N = len(nodes)
    deps, cmds, mt, isfile, syncd, lists = [], [], [], [], [[] for _ in range(N)], []
    procs = {}
    for i in range(N):
        f = nodes[i] == 'f'
        isfile.append(f)
        d = []
        if not f and i:
            if wide and i == N - 1: d = list(range(i))
            elif wide: d = [j for j in range(i) if rng.random() < 0.1]
            else:
                d = [j for j in range(i) if rng.random() < edge]
                if len(d) > 4: d = rng.sample(d, 4)
            rng.shuffle(d)
        deps.append(d)
        if f:
            cmds.append([]); mt.append(rng.randint(10, 13)); continue
        k = 0 if (rng.random() < nocmd and d) else rng.randint(max(1, ncmds[0]), ncmds[1])
        ph = rng.random() < phony
        cs = []
        for c in range(k):
            t = rng.choice([-1, 1, 2, 5]) if rng.random() < tol else 0
            rc = 0
            if t and rng.random() < 0.8:
                rc = rng.choice([1, 3, 255, 256, 259]) if t == -1 else rng.choice([1, t, t])
                if t > 0 and rc > t: rc = t
            if rng.random() < fail / max(1, k):
                if t != -1: rc = rng.choice([t + 1, t + 1, t + 1, t + 2, t + 2, t + 250, t + 250, 256, 512, 259])
            if rng.random() < crash and t in (0, 1, -1):
                rc = rng.choice([0xC0000005, 0xf291, 0xffffffff, 0x80000000])
            elif rng.random() < crash and t in (2, 5):
                rc = rng.choice([0xC0000005, 0xf291])     # counts as 2
            cs.append({'tol': t, 'rc': rc, 'touch': False})
        if cs and not ph:
            cs[-1 if rng.random() < 0.7 else rng.randrange(k)]['touch'] = True
            if rng.random() < 0.05: cs[-1]['touch'] = False; cs[-1]['delete'] = True
        cmds.append(cs)
        if ph: mt.append(0 if rng.random() < 0.85 else rng.randint(10, 13))
        else: mt.append(0 if rng.random() < stale * 0.7 else rng.randint(10, 13))
    # .SYNC
    if sync and rng.random() < sync:
        for i in range(N):
            if len(deps[i]) >= 2 and rng.random() < 0.6:
                d = sorted(deps[i])
                npts = rng.randint(1, min(2, len(d)))
                cuts = sorted(rng.sample(range(1, len(d) + 1), npts))
                groups, p = [], 0
                for c in cuts + [len(d)]:
                    groups.append(d[p:c]); p = c
                for g in groups: rng.shuffle(g)
                lists.append((i, groups))
                deps[i] = [x for g in groups for x in g]
                before = []
                for g in groups:
                    for x in g:
                        if not isfile[x]:
                            for b in before:
                                if b not in syncd[x]: syncd[x].append(b)
                    before += g
    tg = [i for i in range(N) if not isfile[i]]
    if goals == 1: gl = [tg[-1]]
    else:
        gl = rng.sample(tg, min(len(tg), rng.randint(2, goals)))
    def reach(g):
        r, st = set(), [g]
        while st:
            x = st.pop()
            if x not in r: r.add(x); st += deps[x] + syncd[x]
        return r
    if side and len(gl) > 1:
        rs = [reach(g) for g in gl]
        for i in range(N):
            if cmds[i] and rng.random() < side:
                # files of later goals that do not belong to any goal for which this recipe may run
                ok = [x for x in range(N) if x != i and not any(i in r and x in r for r in rs) and any(x in r for r in rs)]
                if ok:
                    x = rng.choice(ok)
                    if isfile[x] or rng.random() < 0.7: cmds[i][-1]['side'] = x
                    else: cmds[i][-1]['sidedel'] = x
    if goals > 1 and len(gl) > 1 and rng.random() < wipe:
        # the recipe of a goal removes files of targets below it, which a later goal may need again
        for g in gl:
            if cmds[g] and sum(g in reach(h) for h in set(gl)) == 1:
                below = [x for x in reach(g) if x != g and not isfile[x]]
                if below: cmds[g][-1]['sidedel'] = rng.choice(below); cmds[g][-1].pop('side', None)
    if rng.random() < 0.1 and goals == 1: gl = [rng.choice(tg)]
    j = rng.randint(*J)
    cfg = {'names': [('f%d' if isfile[i] else 't%d') % i for i in range(N)], 'deps': deps, 'sync': syncd, 'isfile': isfile, 'cmds': cmds, 'mt': mt,
           'goals': gl, 'J': j, 'K': rng.random() < K, 'A': rng.random() < A, 'groups': {str(i): g for i, g in lists}}
    # some targets get their commands from an inference rule of their own
    cfg['inf'] = {}
    for i in range(N):
        if cmds[i] and rng.random() < infer:
            src = [k for k in deps[i] if isfile[k] and not cfg['names'][k].startswith('u')]
            if not src or any(i == k for k, g in lists): continue
            k = rng.choice(src)
            if rng.random() < infer / 2: deps[i] = [k]
            cfg['names'][k] = 'u%d.s%d' % (i, i); cfg['names'][i] = 'u%d.o%d' % (i, i)
            cfg['inf'][str(i)] = {'src': k, 'listed': rng.random() < 0.2,
                                  'block': len(deps[i]) > 1 or i in gl or rng.random() < 0.5}
    cfg['dup'] = dup
    cfg['sub'] = None
    if rng.random() < sub:
        cfg['sub'] = {'free': rng.randint(0, j - 1) if j > 1 else 0, 'total': j}
        if own and rng.random() < own:
            # a nested jom with a number of jobs of its own: it belongs to the outer server if that is the same number
            r = rng.random()
            cfg['sub']['asks'] = j
            if r < 0.7:
                cfg['sub'] = {'free': rng.randint(0, 3), 'total': rng.choice([k for k in range(1, 6) if k != j]), 'asks': j, 'own': True}
    cfg['ext'] = []
    if cfg['sub'] and j > 1 and not cfg['sub'].get('own'):
        held = j - 1 - cfg['sub']['free']
        for k in range(held): cfg['ext'].append({'name': 'h%d' % k, 'ops': ['give'] + (['take', 'give'] if rng.random() < 0.3 else [])})
    if j > 1 and rng.random() < ext:
        cfg['ext'].append({'name': 'e', 'ops': ['take', 'give'] * rng.randint(1, 2)})
    cfg['style'] = rng.randrange(1 << 30)
    cfg['I'] = False; cfg['ignore'] = None
    if rng.random() < ignore:
        order = [i for i in range(N) if not isfile[i]]
        rng.shuffle(order)
        cfg['order'] = order
        if rng.random() < 0.4: cfg['I'] = True; k = 0
        else: k = cfg['ignore'] = rng.randint(0, len(order))
        for i in order[k:]:
            for c in cmds[i]:
                if c['tol'] <= 0:
                    c['tol0'] = c['tol']; c['tol'] = -1
                    if c['tol0'] == 0 and rng.random() < 0.4: c['rc'] = rng.choice([1, 2, 7, 0xC0000005])
                else: c['tol0'] = c['tol'] = -1       # no '-n' there
    return cfg

def makefile(cfg):
    rng = random.Random(cfg['style'])
    nm = cfg['names']
    blocks = []
    order = cfg.get('order') or [i for i in range(len(nm)) if not cfg['isfile'][i]]
    # some configurations say the same in unusual ways
    fancy = 0.2 if rng.random() < 0.3 else 0
    macros = []
    some = lambda p: fancy and rng.random() < p
    waited = {x for s in cfg['sync'] for x in s} | {x for i, s in enumerate(cfg['sync']) if s for x in [i]}
    changed = {c[k] for cs in cfg['cmds'] for c in cs for k in ('side', 'sidedel') if k in c}
    long, bare = set(), set()          # named with the directory of the makefile; there is never a file of that name
    for i in order:
        if some(0.15) and cfg['cmds'][i] and i not in cfg['goals'] and i not in waited and str(i) not in cfg['groups'] and not cfg.get('inf', {}).get(str(i)) and cfg.get('order') is None:
            long.add(i)
        elif not cfg['mt'][i] and i not in changed and not any(c['touch'] or c.get('delete') for c in cfg['cmds'][i]): bare.add(i)
    there = [n for i, n in enumerate(nm) if cfg['mt'][i]]
    def call(ns):
        """names of dependents, spelled somehow"""
        if not fancy: return ns
        o = []
        for n in ns:
            i = nm.index(n)
            if i in bare and some(0.2): n = n.upper()
            elif n in there and not any(m != n and m.startswith(n) for m in there) and i not in long and some(0.1): n += '*'
            if some(0.15): n = '"%s"' % n
            o.append(n)
        if o and some(0.3):
            k = rng.randrange(len(o)); l = rng.randint(k + 1, len(o)); m = 'M%d' % (len(macros) + 1)
            macros.append('%s = %s\n' % (m, ' '.join(o[k:l])))
            o[k:l] = ['$(%s)' % m]
        if len(o) > 1 and some(0.2): o.insert(rng.randrange(len(o)), '\\\n  ')
        return o
    shared, moved = [], {}             # dependents that several targets get in one line of their own
    if some(0.5) and cfg.get('order') is None:
        cand = [i for i in order if str(i) not in cfg['groups'] and not cfg.get('inf', {}).get(str(i)) and i not in long]
        for x in {d for i in cand for d in cfg['deps'][i]}:
            ts = [i for i in cand if x in cfg['deps'][i] and i not in moved]
            if len(ts) > 1 and rng.random() < 0.5:
                ts = rng.sample(ts, rng.randint(2, len(ts)))
                for i in ts: moved[i] = x
                shared.append((ts, x))
    def tname(i):
        return '$(MAKEDIR)\\' + nm[i] if i in long else '"%s"' % nm[i] if some(0.15) else nm[i]
    def again(ns):
        # naming a dependent twice makes no difference
        if ns and rng.random() < cfg.get('dup', 0): ns = ns + [rng.choice(ns)]
        return ns
    def line(i):
        g = cfg['groups'].get(str(i))
        if g is not None:
            parts = []
            for k, x in enumerate(g):
                if k: parts.append('.SYNC')
                parts += call(again([nm[j] for j in x]))
            return ' '.join(parts)
        inf = cfg.get('inf', {}).get(str(i))
        return ' '.join(call(again([nm[j] for j in cfg['deps'][i] if (not inf or inf['listed'] or j != inf['src']) and moved.get(i) != j])))
    for i in order:
        t = nm[i]
        d = line(i)
        cm = []
        for k, c in enumerate(cfg['cmds'][i]):
            pre = ''
            tol = c.get('tol0', c['tol'])
            if tol == -1: pre = rng.choice(['-', '-', '--', '-@', '- ', '- @\t'])
            elif tol > 0: pre = rng.choice(['-%d ', '-%d', '--%d ', '-%d@', '-%d @ ']) % tol
            elif rng.random() < 0.1: pre = rng.choice(['-0 ', '-00'])  if 'tol0' not in c else ''
            if rng.random() < 0.15: pre = rng.choice(['@', '@', '@ ']) + pre
            s = 'x %s.%d' % (t if rng.random() < 0.8 or i in long else '$@', k + 1)
            if c['rc']: s += ' rc=%d' % c['rc']
            if c['touch']: s += ' t=' + t
            if c.get('delete'): s += ' d=' + t
            if 'side' in c: s += ' t=' + nm[c['side']]
            if 'sidedel' in c: s += ' d=' + nm[c['sidedel']]
            if rng.random() < 0.08: s += ' > nul'      # through the shell
            cm.append('\t' + pre + s + '\n')
        inf = cfg.get('inf', {}).get(str(i))
        if inf:
            bl = ['.s%d.o%d:\n' % (i, i) + ''.join(cm), '.SUFFIXES: .s%d .o%d\n' % (i, i)]
            if inf['block'] or inf['listed']: bl.append(t + ': ' + line(i) + '\n')
            # with a given order every target is one block, so that .IGNORE is where it should be
            blocks += bl if cfg.get('order') is None else ['\n'.join(bl)]
        elif str(i) not in cfg['groups'] and len(cfg['deps'][i]) > 1 and i not in moved and rng.random() < 0.2:
            k = rng.randint(1, len(cfg['deps'][i]) - 1)
            a = call([nm[j] for j in cfg['deps'][i][:k]]); b = call([nm[j] for j in cfg['deps'][i][k:]])
            t = tname(i)
            bl = [t + ': ' + ' '.join(a) + '\n', t + ': ' + ' '.join(b) + '\n' + ''.join(cm)]
            if rng.random() < 0.5: bl = [t + ': ' + ' '.join(a) + '\n' + ''.join(cm), t + ': ' + ' '.join(b) + '\n']
            blocks.append('\n'.join(bl))
        else:
            first = cm.pop(0) if cm and some(0.15) else ''
            blocks.append(tname(i) + (': ' if rng.random() < 0.8 else ' : ') + d + (' ;' + first[first.startswith('\t'):-1] if first else '') + '\n' + ''.join(cm))
    for ts, x in shared: blocks.append(' '.join(tname(i) for i in ts) + ': ' + ' '.join(call([nm[x]])) + '\n')
    if cfg.get('order') is None: rng.shuffle(blocks)
    if cfg.get('ignore') is not None: blocks.insert(cfg['ignore'], '.IGNORE:\n')
    head = ''
    if cfg.get('notparallel'): head += '.NOTPARALLEL:\n\n'
    return head + ''.join(macros) + '\n'.join(blocks)

def args(cfg):
    a = ['/nologo']
    if not cfg.get('nojarg'): a += ['/J', str(cfg['jarg'] if 'jarg' in cfg else cfg['J'])]
    if cfg['sub']: a = ['/nologo'] + (['/J', str(cfg['sub']['asks'])] if 'asks' in cfg['sub'] else [])
    if cfg['K']: a.append('/K')
    if cfg['A']: a.append('/A')
    if cfg.get('I'): a.append('/I')
    return a + [cfg['names'][g] for g in cfg['goals']]

def scenario(cfg, **kw):
    sc = {'ext': cfg['ext'], 'cpus': cfg.get('cpus', 4)}
    if cfg['sub']:
        sc['sems'] = {'jomsrv-test': cfg['sub']['free']}
        if not cfg.get('cpus'): sc['cpus'] = cfg['J']
    sc.update(kw)
    return sc

def env(cfg):
    e = {'QT_HASH_SEED': str(cfg.get('hash', 0))}
    if cfg['sub']:
        e['_JOMSRVKEY_'] = 'jomsrv-test'; e['_JOMJOBCOUNT_'] = str(cfg['sub']['total'])
    return e

def files(cfg):
    f = {'Makefile': makefile(cfg)}
    for i, n in enumerate(cfg['names']):
        if cfg['mt'][i]: f[n] = ('x', cfg['mt'][i])
    return f

def run(exe, cfg, sc):
    return simrun.run(exe, files(cfg), args(cfg), scenario(cfg, **sc), env(cfg))

def joined(cfg):
    """does this jom belong to an outer job server?"""
    return bool(cfg['sub']) and not cfg['sub'].get('own')

def tla_cfg(cfg):
    return {'n': len(cfg['names']), 'deps': [[j + 1 for j in d] for d in cfg['deps']], 'sync': [[j + 1 for j in d] for d in cfg['sync']],
            'isfile': cfg['isfile'], 'cmds': [[c['tol'] for c in cs] for cs in cfg['cmds']], 'goals': [g + 1 for g in cfg['goals']],
            'J': cfg['J'], 'T': -1 if joined(cfg) else (cfg.get('jarg') or cfg['J']) - 1, 'H': cfg['sub']['total'] if joined(cfg) else (cfg.get('jarg') or cfg['J']), 'K': cfg['K'], 'A': cfg['A'], 'mt': cfg['mt']}

class Unmapped(Exception): pass

def clamp(rc):
    rc &= 0xffffffff
    return rc - (1 << 32) if rc >= 1 << 31 else rc

def events(cfg, r):
    """The run as events of Exec.tla."""
    ids = {n: i for i, n in enumerate(cfg['names'])}
    ev, proc = [], {}
    ended = False
    key = None
    for e in r.events:
        k = e['e']
        if k == 'sem':
            if e['own'] or key is None: key = e['key']
            ev.append({'a': 'N', 'own': bool(e['own']), 'k': e['tokens']})
        elif k == 'spawn':
            if e['env']:
                ev.append({'a': 'H', 'same': key is not None and e['env'].get('_JOMSRVKEY_') == key, 'k': int(e['env'].get('_JOMJOBCOUNT_') or -1)})
            t, _, i = e['id'].rpartition('.')
            t = t.lower()        # $@ is spelled as where the target was first mentioned
            if t not in ids: raise Unmapped(e['cmd'])
            proc[e['p']] = ids[t]
            ev.append({'a': 'S', 't': ids[t] + 1, 'i': int(i)})
        elif k == 'exit':
            t = proc[e['p']]
            fs = [[ids[f.lower()] + 1, e['now']] for f in e['t'] if f.lower() in ids] + [[ids[f.lower()] + 1, 0] for f in e['d'] if f.lower() in ids]
            ev.append({'a': 'X', 't': t + 1, 'rc': clamp(e['rc']), 'fs': fs})
        elif k == 'death': ev.append({'a': 'D', 't': proc[e['p']] + 1})
        elif k == 'acq': ev.append({'a': 'Q'})
        elif k == 'grant': ev.append({'a': 'G'})
        elif k == 'rel': ev.append({'a': 'R', 'k': e['k']})
        elif k == 'idle': ev.append({'a': 'I'})
        elif k == 'end' and not ended:
            ended = True
            ev.append({'a': 'E', 'how': e['how'] if e['how'] in ('exit', 'hang') else 'crash', 'rc': clamp(r.rc), 'run': len(e['running'])})
    if not ended:
        ev.append({'a': 'E', 'how': 'hang' if r.rc == 97 else 'crash', 'rc': clamp(r.rc), 'run': 0})
    return ev

def explore(exe, cfg, limit, rng, modes=('auto', 'lazy'), base=None):
    """Depth-first over the scheduling choices of one configuration, up to limit runs; then random schedules."""
    out = []
    base = base or {}
    for mode in modes:
        stack = [[]]
        n = 0
        while stack and n < limit:
            pre = stack.pop()
            sc = dict(base, choices=pre)
            if mode != 'auto': sc['mode'] = mode
            r = run(exe, cfg, sc)
            n += 1
            if r.overdue: return out + [(sc, r)]
            ch = [(len(e['opts']), e['pick']) for e in r.events if e['e'] == 'choice']
            picks = [p for _, p in ch]
            alts = []
            for i in range(len(pre), len(ch)):
                for alt in range(ch[i][0]):
                    if alt != ch[i][1]: alts.append(picks[:i] + [alt])
            rng.shuffle(alts)          # the limit cuts at random places of the tree
            stack += alts
            out.append((sc, r))
        # the rest at random, when the tree is too large
        for q in range(limit // 3 if stack else 0):
            sc = dict(base, seed=rng.randrange(1 << 30))
            if mode != 'auto': sc['mode'] = mode
            out.append((sc, run(exe, cfg, sc)))
            if out[-1][1].overdue: return out
    return out
