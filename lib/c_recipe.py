"""Cases of Recipe.tla: what commands get as working directory and environment."""
import re
DIRS = [['a'], ['a', 'b'], ['b'], ['c d'], ['a', 'b', 'c'], ['.d'], ['a', 'a']]
FILES = [['f'], ['a', 'f']]
VARS = ['V1', 'V2', 'Var3', 'path', 'HOME', 'E1', 'e2', 'A_b.c']
LITS = ['1', 'x y', 'a=b', '"q r"', 'C:\\bin;D:\\x', '#no', ';', '50', '(p)', '~', '@', 'set', "it's"]

def caps(f): return f.upper()

def cd_of(rng, cur, chain):
    """a path, as components, that exists relative to cur (or does not)"""
    r = rng.random()
    if r < 0.6:
        opts = [d[len(cur):] for d in DIRS if d[:len(cur)] == cur and len(d) > len(cur)]
        if cur: opts += [['..']]
        if len(cur) > 0: opts += [['..', d[len(cur) - 1]] for d in DIRS if d[:len(cur) - 1] == cur[:-1] and len(d) == len(cur)]
        if opts: return rng.choice(opts)
    if r < 0.8:                                       # exists, but not necessarily from here
        d = rng.choice(DIRS)
        return d
    return rng.choice([['nope'], ['f'], ['a', 'nope'], ['b', 'x']])

def recipe(rng, t, chain, prof, isdir):
    out, lines, cur = [], [], []
    n = rng.choice([1, 2, 3, 4, 6]) if prof != 'env' else rng.choice([1, 2])
    ks = []
    for i in range(n):
        r = rng.random()
        ks.append('x' if r < 0.45 or prof == 'env' else 'cd' if r < 0.7 else 'set' if r < 0.93 else 'none')
    if not chain and 'x' not in ks: ks.append('x')
    for i, k in enumerate(ks):
        pre = rng.choice(['', '', '', '@', '@ '])
        if k == 'x':
            tol, p = (0, '') if rng.random() < 0.85 else rng.choice([(9999, '-'), (1, '-1 ')])
            rc = rng.choice([1, 2]) if rng.random() < 0.06 else 0
            sh = rng.random()
            tail = ' > nul' if sh < 0.1 else ' "q"' if sh < 0.15 else ''
            out.append({'k': 'x', 'tol': tol})
            lines.append('%s%sx t%d.%d%s%s' % (p, pre if not p else '', t, i + 1, ' rc=%d' % rc if rc else '', tail))
            continue
        if k == 'cd':
            p = cd_of(rng, cur, chain)
            d = list(cur)
            for c in p: d = d[:-1] if c == '..' else d + [c]
            ok = isdir(d)
            tol = 9999 if rng.random() < 0.1 else 0
            if not ok and tol == 0:
                # when a recipe fails before its first process is only determined in a chain; not too often
                if rng.random() < 0.5 or (not chain and not any(o['k'] == 'x' for o in out)): tol = 9999
            path = '/'.join(p)
            if path == '..' and '..' in (cur[-1:] or []): continue
            path = rng.choice(['%s', '%s', '"%s"']) % path
            lines.append((rng.choice(['-', '- ', '-\t@']) if tol else pre) + rng.choice(['cd', 'CD', 'Cd']) + rng.choice([' ', '  ', '\t', ' /d ', ' /D ']) + path)
            out.append({'k': 'cd', 'path': p, 'tol': tol})
            if ok: cur = d
            continue
        if k == 'set':
            v = ''.join(rng.choice(LITS) for _ in range(rng.choice([1, 1, 2, 3])))
            v = v.replace('#', '')
            w, m = v, v
            if rng.random() < 0.1: w, m = v + '%', v + '%%'
            name = rng.choice(VARS)
            lines.append(pre + rng.choice(['set', 'SET', 'Set']) + rng.choice([' ', '  ', '\t']) + name + '=' + m)
            out.append({'k': 'set', 'n': name.lower(), 'v': w, 'tol': 0})
            continue
        c = rng.choice([': comment', 'rem x y', 'REM set V1=0', ':set V1=0', 'set V1', 'set V1=t%d.%d > nul', 'cd a > nul t%d.%d', 'set "V1=t%d.%d" > nul'])
        sh = '%' in c                                # a process of its own: no effect on what follows
        if sh: c %= (t, i + 1)
        lines.append(pre + c)
        out.append({'k': 'x' if sh else 'none', 'tol': 0})
    return out, lines

ENVS = ['PATH', 'Path', 'HOME', 'V1', 'v2', 'Var3', 'E1', 'e2', 'LONGER_name', 'ProgramFiles(x86)', 'A.B', 'PROMPT', 'U']

def gen(rng, prof):
    isdir = lambda d: d == [] or d in DIRS
    chain = rng.random() < (0.4 if prof != 'env' else 0.7)
    nt = rng.choice([1, 2, 3, 4]) if prof != 'env' else rng.choice([1, 2])
    jobs = rng.choice([1, 2, 3, 4])
    recs, mk = [], []
    if chain:                                        # t1 first
        for t in range(1, nt + 1):
            r, lines = recipe(rng, t, True, prof, isdir)
            recs.append(r); mk.append((t, [t - 1] if t > 1 else [], lines))
    else:
        for t in range(1, nt + 1):
            r, lines = recipe(rng, t, False, prof, isdir)
            deps = [d for d in range(1, t) if rng.random() < 0.4 or t == nt]
            recs.append(r); mk.append((t, deps, lines))
    # environment
    env, low = [], set()
    def val(k=(1, 1, 2, 3), refs=()):
        return [['l', rng.choice(LITS).replace('#', '')] if not refs or rng.random() < 0.6 else ['r', rng.choice(refs)] for _ in range(rng.choice(k))]
    names = rng.sample(ENVS, rng.choice([2, 4, 6]))
    if prof == 'cd': names = names[:3]
    for n in sorted(names):
        if n.lower() in low: continue
        low.add(n.lower())
        v = val() if rng.random() < 0.9 else []
        bad = n == 'ProgramFiles(x86)'
        raw = ''.join(p[1] for p in v)
        r = rng.random()
        if r < 0.08: raw, bad = raw + '$(', True
        elif r < 0.13: raw, bad = '$+$P$_$G', True
        elif r < 0.2 and not bad: v.append(['l', '$']); v.append(['l', 'x']); raw += '$$x'
        elif r < 0.26 and not bad: v.append(['r', 'NOT_DEFINED']); raw += '$(NOT_DEFINED)'
        env.append({'n': n, 'up': n.upper(), 'low': n.lower(), 'v': v, 'raw': raw, 'bad': bad})
    cmdline, defs, lines, args = [], [], [], []
    e = rng.random() < (0.25 if prof == 'env' else 0.1)
    def text(v, lower=False): return ''.join(p[1].replace('$', '$$') if p[0] == 'l' else '$(%s)' % p[1] for p in v)
    if prof == 'env' or rng.random() < 0.3:
        used = set()
        for _ in range(rng.choice([0, 0, 1, 2])):
            n = rng.choice([x for x in ENVS + ['NEW1', 'new2', 'MAKEX'] if '(' not in x])
            if n.lower() in used: continue
            used.add(n.lower())
            v = val() if rng.random() < 0.9 else []
            cmdline.append({'n': n, 'up': n.upper(), 'low': n.lower(), 'v': v}); args.append(n + '=' + text(v))
        helpers = []
        for h in ['H1', 'H2', 'h3']:
            if rng.random() < 0.5:
                v = val(refs=helpers)
                defs.append({'n': h, 'up': h.upper(), 'low': h.lower(), 'v': v}); lines.append('%s = %s' % (h, text(v))); helpers.append(h)
        for _ in range(rng.choice([1, 2, 3, 5])):
            n = rng.choice([x for x in names if '(' not in x] or ['V1'])
            n = rng.choice([n.upper(), n.upper(), n])
            if rng.random() < 0.15: n = rng.choice(['NEW1', 'new2', 'OTHER'])
            v = val((1, 2, 3), refs=helpers + [n]) if rng.random() < 0.93 else []
            defs.append({'n': n, 'up': n.upper(), 'low': n.lower(), 'v': v})
            lines.append('%s = %s' % (n, text(v)))
    # values are trimmed and must not begin or end with blanks or be taken for something else
    for d in cmdline + defs:
        if any(p[0] == 'l' and (p[1].startswith(' ') or p[1].endswith(' ')) for p in d['v']): return gen(rng, prof)
    for t, deps, cmds in reversed(mk):
        lines.append('t%d :%s' % (t, ''.join(' t%d' % d for d in deps)))
        lines += ['\t' + c for c in cmds]
    files = {'Makefile': '\n'.join(lines) + '\n', 'f': '', 'a/f': ''}
    for d in DIRS: files['/'.join(d)] = None
    scen = {'procs': {}, 'logenv': ['*'], 'seed': rng.randrange(1 << 30), 'mode': rng.choice(['auto', 'auto', 'lazy'])}
    return {'in': {'recipes': recs, 'chain': chain, 'dirs': DIRS, 'env': env, 'cmdline': cmdline, 'defs': defs, 'e': e},
            'files': files, 'args': ['/NOLOGO', '/S', '/J', str(jobs)] + (['/E'] if e else []) + args,
            'scenario': scen, 'env': {d['n']: d['raw'] for d in env}}

def obs(case, r):
    ev, who = [], {}
    for e in r.events:
        if e['e'] == 'spawn':
            m = re.search(r't(\d+)\.(\d+)', e['cmd'])
            if not m: return {'ev': [], 'rc': -1, 'why': 'unexpected command %s' % e['cmd']}
            t, i = int(m.group(1)), int(m.group(2))
            who[e['p']] = (t, i)
            cwd = [] if e['cwd'] == '.' else e['cwd'].split('/')
            ev.append({'e': 's', 't': t, 'i': i, 'cwd': cwd, 'env': dict(e['env'], _jomsrvkey_='')})
        elif e['e'] == 'exit': who[e['p']] += (e['rc'],)
        elif e['e'] == 'death':
            t, i, rc = who[e['p']]
            ev.append({'e': 'd', 't': t, 'i': i, 'rc': rc})
    return {'ev': ev, 'rc': r.rc, 'why': ''}
