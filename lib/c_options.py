"""Cases of Options.tla: options, macro definitions and goals in every place and order."""
import re
MKS = [{'name': 'Makefile', 'tag': 'm1', 'first': 'ok'}, {'name': 'other.mk', 'tag': 'm2', 'first': 'fst'}, {'name': 'my file.mk', 'tag': 'm3', 'first': 'inl'}]
MACS = [{'name': 'EV', 'file': 'file', 'env': 'envval', 'pre': '-'}, {'name': 'CC', 'file': '-', 'env': '-', 'pre': 'cl'},
        {'name': 'MM', 'file': 'inmk', 'env': '-', 'pre': '-'}, {'name': 'Nn', 'file': '-', 'env': '-', 'pre': '-'},
        {'name': 'NN', 'file': '-', 'env': '-', 'pre': '-'}, {'name': 'nn', 'file': '-', 'env': '-', 'pre': '-'},
        {'name': '_x.1', 'file': '-', 'env': '-', 'pre': '-'}, {'name': '_X.1', 'file': '-', 'env': '-', 'pre': '-'}]
GOALS = ['ok', 'old', 'batch', 'inl', 'fail']
VALS = ['', 'v', 'two words', ' lead', 'a=b', '/K', '-f', 'x"y', '"q"', 'trail ', '@f', 'a\tb', '=', "it's", '/J9', 'c:\\d']
LETTERS = 'AEIKLNPRSUWYDG'

def makefile(m):
    order = {'ok': 0, 'fst': 1, 'inl': 2}
    t = m['tag']
    show = 'x %s.ok v=%s{$(MAKEFLAGS)}' % (t, ''.join('{$(%s)}' % x['name'] for x in MACS))
    blocks = {'ok': 'ok :\n\t%s\n' % show, 'old': 'old : f.h\n\tx %s.old\n' % t,
              'batch': 'batch : b1.q2 b2.q2\nb1.q2 : b1.q1\nb2.q2 : b2.q1\n', 'inl': 'inl :\n\tx %s.inl v=<<\ntext\n<<\n' % t, 'fail': 'fail :\n\tx %s.fail rc=3\n' % t}
    text = '.SUFFIXES : .q1 .q2\n.q1.q2::\n\tx %s.q $<\n\n' % t
    text += ''.join('%s = %s\n' % (x['name'], x['file']) for x in MACS if x['file'] != '-')
    if m['first'] == 'fst': text += 'fst :\n\tx %s.fst\n' % t
    for g in ([m['first']] if m['first'] in blocks else []) + [g for g in GOALS if g != m['first']]: text += blocks[g]
    return text

def case_of(rng, w):
    r = rng.random()
    return w.lower() if r < 0.25 else w if r < 0.8 else ''.join(rng.choice([c.lower(), c.upper()]) for c in w)

def group(rng, wild):
    """an option word with its arguments, without the sign in front"""
    w = ''
    r = rng.random()
    if r < 0.12: w = 'NOLOGO'
    elif r < 0.15: w = 'DEBUG'
    elif wild and r < 0.19: w = rng.choice(['DUMPGRAPH', 'VERSION', 'DUMPGRAPHDOT', 'H', '?'])
    if not w or rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 2, 3, 5]) if not w else 1): w += rng.choice(LETTERS)
    elif len(w) == 1: w += rng.choice(LETTERS)
    w = case_of(rng, w)
    if wild and rng.random() < 0.06: w += rng.choice(['M', 'O', 'Z', '1', '=', '/', 'V'])
    r = rng.random()
    out = [w]
    if r < 0.15:
        out = [w + rng.choice('Jj')] if rng.random() < 0.5 else [w, rng.choice('Jj')]
        n = rng.choice(['1', '1', '2', '3', '12', '007'])
        if wild and rng.random() < 0.15: n = rng.choice(['0', 'x', '', '2x', '-1', '00'])
        if n != '2x' and rng.random() < 0.5: out[-1] += n + rng.choice(['', '', rng.choice(LETTERS), 'J1'])
        else: out.append(n or 'none')
    elif r < 0.3:
        out = [w + rng.choice('Ff')] if rng.random() < 0.5 else [w, rng.choice('Ff')]
        n = rng.choice([m['name'] for m in MKS])
        if wild and rng.random() < 0.15: n = rng.choice(['none.mk', 'ok'])
        if rng.random() < 0.5 : out[-1] += n
        else: out.append(n)
    elif r < 0.4:
        out = [w + rng.choice('Xx')] if rng.random() < 0.5 else [w, rng.choice('Xx')]
        n = rng.choice(['e.txt', 'e.txt', 'sub\\err 1.log', 'E2'])
        if wild and rng.random() < 0.15: n = 'nodir\\e.txt'
        if rng.random() < 0.5: out[-1] += n
        else: out.append(n)
    return out

OPT = re.compile(r'^[fFxXjJ]$')
def groups(rng, wild):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        g = group(rng, wild)
        ws, i = [], 0
        # words of the group which are option words get a sign; arguments do not
        sign = lambda: rng.choice('/-')
        r = [sign() + g[0]]
        for k, x in enumerate(g[1:], 1):
            prev = g[k - 1]
            r.append(x if re.search(r'[fFxXjJ]$', prev) and k == len(g) - 1 and not OPT.match(x) else sign() + x)
        if rng.random() < 0.06 and not r[0].endswith(('F', 'f', 'X', 'x', 'J', 'j')) and len(r) == 1: r[0] = r[0][0] + ' ' + r[0][1:] + ' '
        out.append(r)
    return out

def quote(rng, w):
    if not re.search(r'[\s"]', w) and w and rng.random() < 0.7: return w
    q = lambda s: '"' + s.replace('"', '""') + '"'
    if '=' in w and rng.random() < 0.5:
        a, b = w.split('=', 1)
        if not re.search(r'[\s"]', a): return a + '=' + q(b)
    return q(w)

def gen(rng, prof):
    wild = prof == 'wild'
    gs = groups(rng, wild)
    names = [m['name'] for m in MACS]
    names.remove(rng.choice(['Nn', 'nn']))            # of two names that only differ in the case of letters, it is not said which one stands for the name in capitals
    rng.shuffle(names)
    for n in names[:rng.choice([0, 0, 1, 2, 3])]:
        v = rng.choice(VALS)
        gs.append([rng.choice([n, n, n, n + ' ', ' ' + n]) + '=' + v])
    if wild and rng.random() < 0.08: gs.append([rng.choice(['a-b=1', '=x', 'a b=1', '$x=1', ' =1', 'a(b=2'])])
    goals = [rng.choice(GOALS) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    gs += [[rng.choice([g, g, g, g, ' ' + g, g + ' '])] for g in goals]
    if wild and rng.random() < 0.05: gs.append(['nosuch'])
    rng.shuffle(gs)
    jf = mf = ''
    if rng.random() < 0.35:
        def single():
            while True:
                g = group(rng, wild)
                if len(g) == 1: return g[0]
        f = single()
        f = rng.choice(['', '', '-']) + f
        if rng.random() < 0.1: f = '-'
        r = rng.random()
        if r < 0.5: jf = f
        elif r < 0.8: mf = f
        else: jf, mf = f, single()
    args, inner = [], [[], []]
    mode = rng.random()
    for g in gs:
        if mode < 0.5 or rng.random() < 0.5: args.append(g)
        else: inner[rng.randrange(2) if mode > 0.85 else 0].append(g)
    cfiles, files = [], {}
    for k, ws in enumerate(inner):
        if not ws and rng.random() < 0.93: continue
        name = ['cmds', 'c %d.txt' % k, 'sub\\cmds.opt'][rng.randrange(3)]
        if name in [c['name'] for c in cfiles]: continue
        text = rng.choice(['', '', ' ', '\n', '\r\n'])
        for g in ws:
            for w in g: text += quote(rng, w) + rng.choice([' ', '  ', '\t', '\n', '\r\n', '\n\n', ' \n\t'])
            if rng.random() < 0.06: text += '@cmds '
        if rng.random() < 0.4: text = text.rstrip(' \t\n\r') + rng.choice(['', ' '])
        cfiles.append({'name': name, 'text': text})
        files[name.replace('\\', '/')] = text
        args.insert(rng.randint(0, len(args)), ['@' + ('"%s"' % name if rng.random() < 0.4 else name)])
    if wild and rng.random() < 0.04: args.append(['@nofile'])
    args = [w for g in args for w in g]
    cpus = rng.choice([1, 1, 2, 5])
    for m in MKS: files[m['name']] = makefile(m)
    files.update({'f.h': ('', 10), 'old': ('', 20), 'b1.q1': '', 'b2.q1': '', 'sub/keep': ''})
    env = {'EV': 'envval'}
    if jf: env['JOMFLAGS'] = jf
    if mf: env['MAKEFLAGS'] = mf
    return {'in': {'jomflags': jf, 'makeflags': mf, 'args': args, 'cfiles': cfiles, 'cpus': cpus, 'mks': MKS, 'macs': MACS},
            'files': files, 'args': args, 'env': env,
            'scenario': {'mode': rng.choice(['auto', 'lazy', 'manual']), 'seed': rng.randrange(1 << 30), 'cpus': cpus}}

def obs(case, r):
    o = {'started': [], 'printed': [], 'values': [], 'flags': '', 'tokens': -1}
    def take(t):
        m = re.match(r'x (m\d\.\w+)(.*)$', t, re.S)
        if not m: return False
        if m.group(1).endswith('.ok') and not o['values']:
            v = re.findall(r'\{([^}]*)\}', m.group(2))
            o['values'], o['flags'] = v[:-1], v[-1] if v else ''
        return m.group(1)
    for e in r.events:
        if e['e'] == 'spawn':
            n = take(e['cmd'])
            if n: o['started'].append(n)
        elif e['e'] == 'sem' and e['own'] and o['tokens'] < 0: o['tokens'] = e['tokens']
    out = r.out
    if 'TARGETS:' in out: out = out[out.rindex('commands:') + 9:]; out = out.partition('\n\n' if out[:1] == '\t' else '\n')[2]
    for l in out.split('\n'):
        if l.startswith('\t'):
            n = take(l[1:])
            if n: o['printed'].append(n)
    xs = sorted(n for n in r.texts if not n.startswith('tmp/'))
    has = 'empower your cores'
    o.update(rc=r.rc, logo=has in r.err or any(has in r.texts[x] for x in xs), xlogo=[x.replace('/', '\\') for x in xs if has in r.texts[x]], xfiles=[x.replace('/', '\\') for x in xs],
             usage='Usage: jom' in r.out, invalid='is invalid' in r.err, version='jom version ' in r.out, info='MACROS:' in r.out and 'TARGETS:' in r.out,
             dir='Entering directory' in r.out and 'Leaving directory' in r.out, build=bool(re.search(r'^[* ].*\d .*\b(ok|old|batch|inl|fail|fst|f\.h|b\d\.q\d)$', r.out, re.M)),
             dump='end of inline file' in out)
    return o
