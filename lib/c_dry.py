"""Cases of DryRun.tla: the same makefile with /N, without, and as a graph."""
import re
MAC = {'M1': 'mac', 'M2': 'two words', 'M3': '-x=y'}

def gen(rng, prof):
    n = rng.choice([1, 2, 3, 4, 5, 6])
    nodes, files, kinds = [], {}, []
    # nodes: plain files and targets
    for i in range(n):
        kinds.append('f' if i < n - 1 and rng.random() < 0.3 else 't')
    if kinds[-1] == 'f': kinds[-1] = 't'
    name = lambda i: ('f%d.h' if kinds[i] == 'f' else rng.choice(['t%d', 't%d.x', 'Tt%d', 'sub\\t%d'])) % (i + 1)
    names = [name(i) for i in range(n)]
    files['sub/keep'] = ''
    inf = {}
    quiet = rng.random() < 0.15
    single = rng.random() < 0.6
    heads = {}
    for i in range(n):
        if kinds[i] == 'f':
            nodes.append({'name': names[i], 'deps': [], 'file': True, 'exists': True, 'mt': rng.randint(10, 14), 'lines': []})
            files[names[i]] = ('', nodes[-1]['mt']); continue
        d = [j for j in range(i) if rng.random() < 0.5]
        if i == n - 1 and not d and i: d = [i - 1]
        rng.shuffle(d)
        touch = rng.random() < 0.7
        ncmd = rng.choice([0, 1, 1, 2, 3]) if d else rng.choice([1, 1, 2, 3])
        exists = touch and ncmd > 0 and rng.random() < 0.65
        nodes.append({'name': names[i], 'deps': d, 'file': False, 'exists': exists, 'mt': rng.randint(10, 14) if exists else 0, 'lines': []})
        if exists: files[names[i].replace('\\', '/')] = ('', nodes[-1]['mt'])
        # through an inference rule?
        src = [j for j in d if kinds[j] == 'f' and j not in [x for x, _ in inf.values()]]
        if ncmd and src and rng.random() < 0.3 and '\\' not in names[i]:
            j = rng.choice(src)
            inf[i] = (j, rng.random() < 0.3)
            for old, new in ((i, 'u%d.o%d' % (i, i)), (j, 'u%d.s%d' % (i, i))):
                p = names[old].replace('\\', '/')
                if p in files: files[new] = files.pop(p)
                names[old] = nodes[old]['name'] = new
        heads[i] = (ncmd, touch)
    # .SILENT in front of the block with this number (or nowhere)
    order = [i for i in range(n) if kinds[i] == 't']
    rng.shuffle(order)
    goal = n - 1
    named = rng.random() < 0.6
    if not named: order.remove(goal); order.insert(0, goal)
    mute = rng.randint(0, len(order)) if rng.random() < 0.2 else None
    lines = ['%s = %s' % kv for kv in MAC.items()]
    inline = 0
    # commands that the file system may hold against us are left to a single job
    for pos, i in enumerate(order):
        if mute is not None and pos == mute: lines.append('.SILENT :')
        nd = nodes[i]
        ncmd, touch = heads[i]
        deps = [names[j] for j in nd['deps']]
        rule = i in inf
        if rule:
            j, listed = inf[i]
            shown = [x for x in deps if listed or x != names[j]]
        else: shown = deps
        cl = []
        if ncmd and rng.random() < 0.15:
            # a directory that only the build makes
            for w, starts in (('x %d.m m=new%d' % (i + 1, i), True), ('cd new%d' % i, False), ('cd' + ' ' * (10 * i + 9) + '..', False)):
                silent = rng.random() < 0.2
                nd['lines'].append({'text': w, 'silent': silent or (mute is not None and pos >= mute), 'starts': starts})
                cl.append('\t' + '@' * silent + w)
        for c in range(1, ncmd + 1):
            key = '%d.%d' % (i + 1, c)
            silent = rng.random() < 0.3
            tol = rng.random() < 0.15
            bang = len(deps) > 0 and not rule and rng.random() < 0.15 and c < ncmd
            pre = ['@'] * silent * rng.choice([1, 1, 2]) + ['-'] * (tol and rng.random() < 0.5) + (['!'] if bang else [])
            if tol and '-' not in pre: pre.append(rng.choice(['-3', '-9 ', '--2 ']))
            rng.shuffle(pre)
            if any(re.match(r'-+\d*$', x) for x in pre[-1:]) and pre[-1].strip('-') and not pre[-1].endswith(' '): pre[-1] += ' '
            pre = rng.choice(['', '', '', ' ', '\t']).join(pre + [''])
            last = c == ncmd
            kind = rng.choice(['x', 'x', 'x', 'x', 'rem', 'set', 'sh', 'colon', 'nil', 'dir']) if not last else rng.choice(['x', 'x', 'x', 'x', 'sh', 'il' if not rule else 'x'])
            if last and not touch and rng.random() < 0.2: kind = rng.choice(['rem', 'set', 'colon'])
            if bang: kind = 'x'
            starts = kind in ('x', 'sh', 'il')
            e = {'x': 'x ', 'sh': 'x ', 'il': 'x ', 'rem': rng.choice(['rem ', 'REM ', 'rem\t']), 'set': rng.choice(['set V%d=' % (i + 1), 'SET  w%d_%d=' % (i, c)]), 'colon': ':', 'nil': '', 'dir': 'x '}[kind]
            if kind == 'nil':
                e = 'cd' + ' ' * (10 * i + c) + '.'; key = ''
            if kind == 'dir': starts = True
            w, t = e + key, e + key
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                if kind == 'nil': break
                r = rng.random()
                m = rng.choice(list(MAC))
                if r < 0.2: w += ' $(%s)' % m; t += ' ' + MAC[m]
                elif r < 0.35: w += ' $@'; t += ' ' + nd['name']
                elif r < 0.45 and not bang and not rule: w += ' $**'; t += ' ' + ' '.join(deps)
                elif r < 0.55: w += ' 100%%'; t += ' 100%%'
                elif r < 0.65: w += ' $$x'; t += ' $x'
                elif r < 0.75: w += ' ^a'; t += ' ^a'
                elif r < 0.85: w += '  "q  r"'; t += '  "q  r"'
                else: w += ' @-!'; t += ' @-!'
            if tol and starts and rng.random() < 0.5: w += ' rc=2'; t += ' rc=2'
            if starts and last and touch: w += ' t=$@'; t += ' t=' + nd['name']
            ts = [t]
            if bang: w += ' v=$**'; ts = [t + ' v=' + d for d in dict.fromkeys(deps)]
            if kind == 'sh': w += ' > nul'; ts = [t + ' > nul']
            body = []
            if kind == 'il':
                nm = 'in%d.txt' % i if rng.random() < 0.5 else ''
                w += ' @<<' + nm; ts = [t + ' @' + (nm or '<T>')]
                body = ['text', '<<' + rng.choice(['', 'KEEP', ' NOKEEP'])]
            muted = mute is not None and pos >= mute
            for x in ts: nd['lines'].append({'text': x, 'silent': silent or muted, 'starts': starts})
            cl.append('\t' + pre + w); cl += body
        sep = rng.choice([' : ', ': ', ':']) if not re.match(r'^\w$', names[i]) else ' : '
        if rule:
            j, listed = inf[i]
            lines += ['.s%d.o%d:' % (i, i)] + cl + ['', '.SUFFIXES: .s%d .o%d' % (i, i)]
            lines += [names[i] + sep + ' '.join(shown), '']
            # the source that the rule finds comes last
            if not listed: nd['deps'].remove(j); nd['deps'].append(j)
        else: lines += [names[i] + sep + ' '.join(shown)] + cl + ['']
    for nd in nodes: nd['deps'] = [j + 1 for j in nd['deps']]
    files['Makefile'] = '\n'.join(lines) + '\n'
    every = rng.random() < 0.2
    base = ['/NOLOGO'] + (['/A'] if every else []) + (['/S'] if quiet else []) + (['/K'] if rng.random() < 0.2 else [])
    base += ['/J1'] if single else ['/J', str(rng.choice([2, 3, 4]))]
    base += ['/I'] if rng.random() < 0.1 else []
    g = [names[goal]] if named else []
    nn = rng.choice(['/N', '/n', '-n', '-N'])
    dry = base[:]; dry.insert(rng.randint(1, len(dry)) if single else 1, nn)
    tree = rng.choice([['/DUMPGRAPH'], ['/DUMPGRAPH'], ['/dumpgraph'], ['/DUMPGRAPHDOT'], ['/?'], ['/H'], ['/HELP'], ['/VERSION']])
    a = {'in': {'nodes': nodes, 'goal': goal + 1, 'all': every, 'quiet': quiet, 'single': single, 'tree': tree[0].upper() == '/DUMPGRAPH'},
         'files': files, 'args': dry + g, 'also': [base + g, base[:1] + tree + base[1:] + g],
         'scenario': {'mode': rng.choice(['auto', 'lazy', 'manual']), 'seed': rng.randrange(1 << 30)}}
    return a

def nice(s):
    s = re.sub(r'"?\\[^"\s]*\\tmp\\[^\\"]*\.jom"?', '<T>', s)
    return s

def look(case, r):
    # lines of stdout with the moment at which they end
    ev, buf = [], ''
    for e in r.events:
        if e['e'] == 'spawn':
            c = e['cmd']
            m = re.match(r'cmd\.exe /C (.*)$', c, re.S)
            if m: c = m.group(1)
            if c.startswith('"') and c.endswith('"') and c.count('"') > 2: c = c[1:-1]
            ev.append(['s', nice(c)])
        elif e['e'] == 'w' and e['s'] == 1:
            buf += e['d']
            while '\n' in buf:
                l, buf = buf.split('\n', 1)
                ev.append(['w', nice(l[1:] if l.startswith('\t') else '?' + l)])
    if buf: ev.append(['w', '?' + buf])
    # what is started has %% written as %
    back = {}
    for nd in case['in']['nodes']:
        for ln in nd['lines']: back[ln['text'].replace('%%', '%')] = ln['text']
    ev = [[k, back.get(t, t) if k == 's' else t] for k, t in ev]
    had = {n.replace('/', '\\').lower() for n in case['files']}
    left = {n.replace('/', '\\').lower() for n in r.left}
    changed = sorted(x.replace('/', '\\') for x in r.texts) + sorted('-' + x for x in had - left if not x.endswith('\\'))
    end = [e for e in r.events if e['e'] == 'end']
    return {'how': end[-1]['how'] if end else 'none', 'rc': r.rc, 'ev': ev, 'changed': changed}

def obs(case, r):
    g = r.more[1]
    o = look(case, g)
    lines = []
    for l in g.out.split('\n')[:-1]: lines.append([len(l) - len(l.lstrip(' ')), l.lstrip(' ')])
    return {'dry': look(case, r), 'real': look(case, r.more[0]),
            'graph': {'how': o['how'], 'rc': o['rc'], 'starts': sum(e['e'] == 'spawn' for e in g.events), 'changed': o['changed'], 'lines': lines if case['in']['tree'] else []}}
