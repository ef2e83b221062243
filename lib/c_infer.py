"""Cases of Infer.tla: inference rules, suffix lists, batch rules."""
import re
DEFAULTS = ['.exe', '.obj', '.asm', '.c', '.cpp', '.cxx', '.bas', '.cbl', '.for', '.pas', '.res', '.rc']
STEMS = ['a1', 'b2', 'foo', 'bar', 'x.y', 'long_name', 'q-7', 'w5', 'zz', 'k9']
FE = ['.c', '.cpp', '.cxx', '.c', '.y', '.idl', '.rc', '.asm']
TE = ['.obj', '.obj', '.res', '.o', '.c']
DIRS = ['.', '.', '.', 'src', 'out', 'gen\\deep', 'o.d']

def join(d, f): return f if d == '.' else d + '\\' + f

def gen(rng, prof):
    while True:
        c = attempt(rng, prof)
        if c: return c

def attempt(rng, prof):
    batchy = prof in ('batch', 'keep')
    sufs = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        sufs.append([] if rng.random() < 0.35 else [rng.choice(FE + ['.obj', '.none']) for _ in range(rng.choice([1, 2, 3, 5]))])
    if batchy and rng.random() < 0.7: sufs = []
    ds = ['.'] + [rng.choice(DIRS) for _ in range(2)]
    rules = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 8] if not batchy else [1, 1, 2, 3])):
        if rules and rng.random() < 0.3:
            r = dict(rng.choice(rules))
            k = rng.choice(['fe', 'fd', 'batch', 'same', 'td'])
            if k in ('fd', 'td'): r[k] = rng.choice(ds)
            elif k == 'fe': r['fe'] = rng.choice(FE)
            elif k == 'batch': r['batch'] = not r['batch']
        else: r = {'fd': rng.choice(ds), 'fe': rng.choice(FE[:4] if batchy else FE), 'td': rng.choice(ds), 'te': rng.choice(TE[:3] if batchy else TE), 'batch': rng.random() < (0.85 if batchy else 0.3)}
        if r['fe'] == r['te']: return None
        r['n'] = rng.choice([1, 1, 1, 2, 3]); r['fails'] = False
        rules.append(r)
    tdirs = sorted({r['td'] for r in rules} | ({'.'} if rng.random() < 0.3 else set()))
    tes = sorted({r['te'] for r in rules})
    files, targets = {}, []
    names = set()
    def age(): return rng.choice([1, 2, 3, 4, 5, 6, 7, 8]) * 100
    for h in ('h1.h', 'h2.h', 'src\\h3.h'): files[h] = age()
    nt = rng.choice([1, 2, 3, 4, 6, 9]) if not batchy else rng.choice([2, 3, 4, 5, 7, 10, 14])
    stems = STEMS + (['m%d' % i for i in range(8)] if batchy else [])
    low = []
    if prof == 'keep':
        for k in range(rng.choice([1, 2, 3])):
            n = 'low%d' % k
            targets.append({'n': n, 'deps': [], 'own': rng.choice([1, 1, 2]), 'implicit': False, 'p': len(targets) + 1, 'fails': rng.random() < 0.4})
            names.add(n); low.append(n)
    for _ in range(nt):
        n = join(rng.choice(tdirs), rng.choice(stems) + rng.choice(tes))
        if n in names: continue
        x = rng.random()
        implicit = x < 0.6
        own = rng.choice([1, 2]) if x > 0.92 else 0
        deps = []
        if low and rng.random() < 0.8:
            implicit = False
            deps = [rng.choice(low)]
        if not implicit:
            for _ in range(rng.choice([0, 1, 1, 2])):
                d = rng.choice(sorted(files)) if rng.random() < 0.55 or not targets else rng.choice(targets)['n']
                if d in deps or d == n: continue
                deps.append(d)
                dd = d[:d.rfind('\\')] if '\\' in d else '.'
                # a file that a rule could make is a target too
                if d not in names and any(d.endswith(r['te']) and dd == r['td'] for r in rules):
                    targets.append({'n': d, 'deps': [], 'own': 0, 'implicit': True, 'p': len(targets) + 1, 'fails': False}); names.add(d)
        if n in names: return None
        targets.append({'n': n, 'deps': deps, 'own': own, 'implicit': implicit, 'p': len(targets) + 1, 'fails': own > 0 and rng.random() < 0.05})
        names.add(n)
        if rng.random() < 0.4: files[n] = age()
        # sources for it
        te = n[n.rfind('.'):]
        cands = [r for r in rules if r['te'] == te and r['td'] == (n[:n.rfind('\\')] if '\\' in n else '.')]
        stem = n[n.rfind('\\') + 1:-len(te)]
        for r in cands:
            if rng.random() < (0.55 if not batchy else 0.9):
                s = join(r['fd'], stem + r['fe'])
                if s not in files and s not in names: files[s] = age()
        if batchy and not cands: return None
    for t in targets:
        if t['n'] in files and rng.random() < 0.05: del files[t['n']]
    # most targets can be made or are there
    lst = list(DEFAULTS)
    for l in sufs: lst = lst + l if l else []
    for t in targets:
        n = t['n']; d = n[:n.rfind('\\')] if '\\' in n else '.'
        if not t['implicit'] or n in files or rng.random() < 0.08: continue
        f = n[n.rfind('\\') + 1:]
        cs = [r for r in rules if f.endswith(r['te']) and r['td'] == d and r['fe'] in lst]
        ss = [join(r['fd'], f[:-len(r['te'])] + r['fe']) for r in cs]
        if any(x in files or x in names for x in ss): continue
        if ss: files[rng.choice(ss)] = age()
        else: files[n] = age()
    used = {d for t in targets for d in t['deps']}
    deps = [t['n'] for t in targets if t['n'] not in used or rng.random() < 0.3]
    rng.shuffle(deps)
    if not deps: return None
    goal = {'n': 'all', 'deps': deps, 'own': rng.choice([0, 1, 1]), 'implicit': False, 'p': len(targets) + 1, 'fails': False}
    targets.append(goal)
    index = {t['n']: i for i, t in enumerate(targets)}
    def needs(n):
        out, todo = set(), [n]
        while todo:
            m = todo.pop()
            for d in targets[index[m]]['deps'] if m in index else []:
                if d not in out: out.add(d); todo.append(d)
        return out
    for t in targets:
        if t['own'] or t is goal: continue
        f = t['n'][t['n'].rfind('\\') + 1:]
        for r in rules:
            if not f.endswith(r['te']) or (t['n'][:t['n'].rfind('\\')] if '\\' in t['n'] else '.') != r['td']: continue
            s = join(r['fd'], f[:-len(r['te'])] + r['fe'])
            # a source that is a target, but nothing the target is said to depend on: when it is looked for depends on the schedule
            if s in index and s not in needs(t['n']):
                if index[s] < index[t['n']]: t['implicit'] = False; t['deps'].append(s)
                else: return None
    opts = {'all': rng.random() < 0.12, 'batching': rng.random() >= 0.15, 'jobs': rng.choice([1, 1, 2, 3, 4, 7]), 'keep': rng.random() < (0.6 if batchy else 0.45) or prof == 'keep'}
    if rng.random() < (0.35 if batchy else 0.1):
        rng.choice(rules)['fails'] = True
    goals, single = [], True
    if rng.random() < 0.1 and not opts['all'] and not any(r['fails'] for r in rules + targets):
        g = rng.choice(targets)['n']
        if g != 'all' and not targets[index[g]]['implicit']: goals, single = [g, 'all'], False
    # ---- text ----
    def sp(n):     # spellings of one name
        x = rng.random()
        return n.replace('\\', '/') if x < 0.05 and prof == 'paths' else n
    sufmac = {}
    def suf(e):
        x = rng.random()
        if x < 0.08:
            # by way of a macro
            sufmac[e] = 'E%d' % len(sufmac) if e not in sufmac else sufmac[e]
            return '$(%s)' % sufmac[e]
        return e.upper() if x < 0.16 else e.capitalize() if x < 0.19 else e
    def dirs(d):
        if d == '.': return rng.choice(['', '', '', '{.}', '{}'])
        v = d
        x = rng.random()
        if x < 0.1: v = v.upper()
        elif x < 0.2: v = v.replace('\\', '/')
        elif x < 0.3: v += '\\'
        elif x < 0.35: v += '/'
        if x > 0.9: return '{$(D%d)}' % (ALLD.index(d))
        return '{%s}' % v
    ALLD = sorted(set(ds))
    lines = ['D%d = %s' % (i, d) for i, d in enumerate(ALLD)]
    def block(t):
        if t['implicit']: return []
        line = t['n'] + rng.choice([':', ' :', ': '])
        for d in t['deps']: line += ' ' + d
        return [line] + ['\tx p%d.%d %st=%s %s' % (t['p'], c, 'rc=1 ' * (t['fails'] and c == t['own']), t['n'] if t is not goal else 'dummy%d' % c, t['n']) for c in range(1, t['own'] + 1)]
    parts = [('t', block(t)) for t in targets[:-1] if not t['implicit']]
    rng.shuffle(parts)
    parts.insert(0, ('t', block(goal)))
    rest = []
    for i, r in enumerate(rules, 1):
        head = dirs(r['fd']) + suf(r['fe']) + dirs(r['td']) + suf(r['te']) + rng.choice(['', '', '', ' ', '\t']) + ('::' if r['batch'] else ':') + rng.choice(['', '', '', ' ', '  # comment', '# a : b', '\t'])
        body = []
        for c in range(1, r['n'] + 1):
            cmd = '\tx r%d.%d ' % (i, c)
            if c == r['n'] and r['fails']: cmd += 'rc=%d ' % rng.choice([1, 2, 255])
            if r['batch'] and opts['batching']:
                if c == 1: cmd += 'W=%s:%s ' % (r['fe'], join(r['td'], '*' + r['te']))
                cmd += '$<'
                if rng.random() < 0.25: cmd += ' f=<<%s\n$<\n<<' % rng.choice(['', 'l%d_%d.rsp' % (i, c)])
            else: cmd += ('t=$@ ' if c == 1 else '') + '$< $@'
            body.append(cmd)
        rest.append([head] + body)
    seq = list(rest)
    for s in sufs: pass
    sl = [rng.choice(['.SUFFIXES:', '.SUFFIXES :']) + ''.join(rng.choice([' ', '  ', '\t']) + suf(e) for e in s) for s in sufs]
    at = sorted(rng.randrange(len(rest) + 1) for _ in sl)
    for k, (a, l) in enumerate(zip(at, sl)): seq.insert(a + k, [l])
    # blocks of targets anywhere between them
    for _, b in parts: seq.insert(rng.randrange(len(seq) + 1), b) if b is not parts[0][1] else None
    first = rng.random() < 0.5
    if first: seq.insert(0, parts[0][1])
    else: seq.append(parts[0][1]); goals = goals or ['all']
    lines += ['%s = %s' % (m, e) for e, m in sufmac.items()]
    if sl and rng.random() < 0.3:
        # the whole list in a macro
        k = rng.choice([i for i, b in enumerate(seq) if b and b[0].startswith('.SUFFIXES')])
        a, b = seq[k][0].split(':', 1)
        lines.append('LIST = ' + b.strip()); seq[k] = [a + ': $(LIST)']
    lines += [l for b in seq for l in b + ['']]
    mk = '\n'.join(lines) + '\n'
    fs = {n.replace('\\', '/'): ('', t) for n, t in files.items()}
    for d in set(ds) | {r['td'] for r in rules}:
        if d != '.': fs[d.replace('\\', '/') + '/keep'] = ''
    fs['Makefile'] = mk
    if first and goals == [] : pass
    args = ['/NOLOGO', '/S', '/J', str(opts['jobs'])] + ['/A'] * opts['all'] + ['/Y'] * (not opts['batching']) + ['/K'] * opts['keep'] + goals
    scen = {'seed': rng.randrange(1 << 30), 'mode': rng.choice(['auto', 'lazy', 'manual', 'deathfirst'])}
    return {'in': dict(opts, suffixes=sufs, defaults=DEFAULTS, rules=rules, targets=targets, files=sorted(files.items()), single=single), 'files': fs, 'args': args, 'scenario': scen}

def obs(case, r):
    ev, live = [], {}
    rules = case['in']['rules']
    for e in r.events:
        if e['e'] == 'spawn':
            w = e['cmd'].split()
            m = re.match(r'([rp])(\d+)\.(\d+)$', w[1]) if len(w) > 1 else None
            if not m: ev.append({'e': 's', 'k': e['p'], 'r': 0, 'c': 0, 'a': ['?' + e['cmd']]}); continue
            a = [x.lower() for x in w[2:] if '=' not in x]
            for f in e.get('files') or []:       # what the in-line file tells is to be the same
                if not re.search(r'\bl\d+_\d+\.rsp$|\.jom$', f[0]): continue
                b = (f[1] or '').lower().split()
                if b != a: a = b
            a = [x[2:] if x.startswith('.\\') else x for x in a]
            ev.append({'e': 's', 'k': e['p'], 'r': int(m.group(2)) if m.group(1) == 'r' else 0, 'c': int(m.group(3)), 'a': a})
        elif e['e'] == 'exit': ev.append({'e': 'd', 'k': e['p'], 'ok': e['rc'] == 0})
    end = [e for e in r.events if e['e'] == 'end']
    return {'how': end[-1]['how'] if end else 'none', 'rc': r.rc, 'ev': ev}
