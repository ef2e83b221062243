"""Cases of FileMacros.tla: file name macros with every modifier and substitution, in commands and in dependents."""
import re
STEMS = ['a', 'foo', 'Ab', 'x.y', 'long.name.z', 'a b', 'tar', '.hid', 'n-1', 'o.o']
EXTS = ['.c', '.lib', '.x', '', '.tar.gz', '.C']
DIRS = ['', '', '', 'sub\\', 'd.x\\', 'sub\\deep\\', 'a b\\', 'd.1\\e.2\\', '..\\', 'sub.c\\o\\']
LITS = ['a', '-o', '=', ',', '[', ']', '"', '(', ')', ':', '@', '*', '?', '.', '\\', 'x', ' ', '  ', '/D', 'D', '#', ';', '**', "'"]
SUBS = ['a', '.', '.c', '\\', 'o', 'foo', 'x', ' ', 'obj', 'b', '.obj', 'sub\\', 'A', 'oo', '-']
AFTER = ['', 'b', '.h', '/', 'q r', 'aa', '\\\\', 'x.y', '(', ';', ',', "'", '@', '#']

def root(n):
    d = n.rfind('.')
    return n[:d] if d > n.rfind('\\') else n
def part(n, mod):
    f = n[n.rfind('\\') + 1:]
    return {'D': n[:n.rfind('\\')] if '\\' in n else '.', 'F': f, 'B': f.split('.')[0], 'R': root(n), '': n}[mod]
def text_of(t, pieces):
    r = ''
    for p in pieces:
        if 't' in p: r += p['t']; continue
        w = part(t if p['m'] == '@' else root(t), p['mod'])
        if p['sub']: w = w.replace(*p['sub'])
        r += '"%s"' % w if ' ' in w else w
    return r

def macro(rng, ms):
    p = {'m': rng.choice(ms), 'mod': rng.choice(['', '', 'D', 'B', 'F', 'R']), 'sub': []}
    if rng.random() < 0.25: p['sub'] = [rng.choice(SUBS), rng.choice(AFTER)]
    return p
def show(rng, p, dep=False):
    if 't' in p: return p['t']
    d = '$$' if dep and p['m'] == '@' and rng.random() < 0.6 else '$'
    if p['sub']:
        q = [x.replace(')', '^)') for x in p['sub']]
        return '%s(%s%s:%s=%s)' % (d, p['m'], p['mod'], q[0], q[1])
    if p['mod']: return '%s(%s%s)' % (d, p['m'], p['mod'])
    return d + p['m'] if rng.random() < 0.6 else '%s(%s)' % (d, p['m'])

def name(rng, exts=EXTS):
    while True:
        n = rng.choice(DIRS) + rng.choice(STEMS) + rng.choice(exts)
        f = n.split('\\')[-1]
        if f != '.hid' and not (n.startswith('.')): return n

def gen(rng, prof):
    nt = rng.choice([1, 2, 3, 4])
    targets, files, rebuilt, text, macs, rules = [], {}, {}, [], [], []
    used, shapes = set(), []
    def fresh(exts=EXTS):
        for _ in range(50):
            n = name(rng, exts)
            if n.lower() not in used: used.add(n.lower()); return n
        return None
    for k in range(nt):
        inf = rng.random() < 0.35
        t = fresh(['.obj'] if inf else EXTS)
        if not t: continue
        tg = {'n': t, 'src': '', 'deps': [], 'cmds': []}
        deps = []
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            if rng.random() < 0.2 and ' ' not in t:
                p = [macro(rng, ['@', '*']) for _ in range(rng.choice([1, 1, 2]))]
                if any(set(' #;:()"\'') & set(''.join(q['sub'])) for q in p): continue
                p.insert(rng.choice([0, len(p), len(p)]), {'t': rng.choice(['x', '.h', 'p-', 'd\\'])})
                n = text_of(t, p)
                if ' ' in n or '"' in n or any(c in n for c in ':;#()@,*?/=\'') or '\\\\' in n or n.startswith(('\\', '.')) or n.endswith(('\\', '.')) or n.lower() in used: continue
                if '\\.' in n: continue
                used.add(n.lower())
                deps.append(p); files[n] = None
                continue
            d = fresh() if rng.random() < 0.7 or not files else rng.choice(sorted(files))
            if not d or [{'t': d}] in deps: continue
            files.setdefault(d, None)
            deps.append([{'t': d}])
        if len(deps) > 1 and rng.random() < 0.1: deps.append(deps[0])       # twice
        cmds = []
        for c in range(rng.choice([1, 1, 2, 3])):
            ps = [{'t': 'x k%d.%d ' % (len(targets), c)}]
            for _ in range(rng.choice([1, 2, 3, 5])):
                ps.append(macro(rng, ['@', '*', '**', '?', '<', '**', '?']) if rng.random() < 0.7 else {'t': rng.choice(LITS)})
            # white space at the end of a command goes away, and a backslash joins lines
            while ps[-1].get('t', 'x')[-1:] in ('\\', ' '):
                if len(ps) == 1: ps[0]['t'] = ps[0]['t'].strip(); break
                ps.pop()
            each = rng.random() < 0.25
            cmds.append({'each': each, 'p': ps})
        if inf:
            # {from}.ext{to}.obj
            src_dir = rng.choice(['', 'src\\', 'd.x\\', t[:t.rfind('\\') + 1]])
            ext = rng.choice(['.c', '.y', '.cpp'])
            src = src_dir + t.split('\\')[-1][:-4] + ext
            if src.lower() in used and src not in files: continue
            if ' ' in src_dir and rng.random() < 0.5: continue
            used.add(src.lower())
            to = t[:t.rfind('\\')] if '\\' in t else ''
            head = ('{%s}' % src_dir[:-1] if src_dir else '') + ext + ('{%s}' % to if to else '') + '.obj'
            if head in rules: continue
            rules.append(head); shapes.append((src_dir, ext, to))
            files.setdefault(src, None)
            tg['src'] = src
            text.append(head + ':')
        tg['deps'], tg['cmds'] = deps, cmds
        lines = []
        for c in cmds:
            l = ''
            for p in c['p'][::-1]:
                w = show(rng, p)
                l = ('$(*)' if w == '$*' and l.startswith('*') else w) + l
            if rng.random() < 0.15 and not inf and '#' not in l:
                m = 'CMD%d' % len(macs)
                macs.append('%s = %s' % (m, l))
                if l.rstrip() != l or '"' in m: macs[-1] += ''
                l = '$(%s)' % m
            lines.append('\t' + rng.choice(['', '', '@', '-'] if not c['each'] else ['']) + ('!' if c['each'] else '') + rng.choice(['', '@'] if c['each'] else ['']) + l)
        if inf: text += lines
        dl = ('"%s"' % t if ' ' in t else t) + rng.choice([' :', ':']) if len(t) > 1 and not t.endswith(' ') else t + ' :'
        for p in deps:
            s = ''.join(show(rng, q, True) for q in p)
            dl += ' ' + ('"%s"' % s if ' ' in s and not any('m' in q for q in p) else s)
        text.append(dl)
        if not inf: text += lines
        elif rng.random() < 0.5: text.append('')
        targets.append(tg)
    if not targets: return gen(rng, prof)
    have = {f.lower() for f in files} | {t['n'].lower() for t in targets}
    for t in targets:
        if not t['src']: continue
        d = t['n'][:t['n'].rfind('\\')] if '\\' in t['n'] else ''
        # one rule is applicable
        if sum(to == d and (sd + t['n'].split('\\')[-1][:-4] + ext).lower() in have for sd, ext, to in shapes) != 1: return gen(rng, prof)
    times = {}
    fs = {}
    for f in sorted(files):
        times[f] = rng.choice([5, 6, 7, 7, 8])
        if rng.random() < 0.15 and not any(f == t['src'] for t in targets) and f.lower() not in [t['n'].lower() for t in targets]:
            rebuilt[f] = 1
    for tg in targets:
        if rng.random() < 0.75: times[tg['n']] = rng.choice([6, 7, 7, 9])
    for f in times: fs[f] = ('', times[f])
    for i, f in enumerate(sorted(rebuilt)):
        text.append('%s:' % ('"%s"' % f if ' ' in f else f if len(f) > 1 else f + ' '))
        text.append('\tx d%d "w=%s"' % (i, f) if ' ' in f else '\tx d%d w=%s' % (i, f))
        times[f] = 1000
    mk = '.SUFFIXES: .cpp .y\n' + ''.join(m + '\n' for m in macs) + '\n'.join(text) + '\n'
    goals = [t['n'] for t in targets]
    if any(g.startswith(('-', '/', '@')) or '=' in g for g in goals): return gen(rng, prof)
    fs2 = {k.replace('\\', '/'): v for k, v in fs.items()}
    low = [k.lower() for k in fs2] + [t['n'].lower().replace('\\', '/') for t in targets]
    if any(b.startswith(a + '/') for a in low for b in low): return gen(rng, prof)
    fs2['Makefile'] = mk
    return {'in': {'targets': targets, 'times': sorted([k, v] for k, v in times.items())},
            'files': fs2, 'args': ['/NOLOGO', '/S', '/A', '/J1'] + goals}

def obs(case, r):
    cmds = [e['cmd'] for e in r.events if e['e'] == 'spawn']
    cmds = [c[len('cmd.exe /C '):] if c.startswith('cmd.exe /C ') else c for c in cmds]
    cmds = [c for c in cmds if not re.match(r'x d\d', c)]
    how = 'ok' if r.rc == 0 else 'rc=%s' % r.rc
    return {'how': how, 'cmds': cmds}
