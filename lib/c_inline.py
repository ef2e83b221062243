"""Cases of Inline.tla: recipes with inline files."""
import re
NAMES = ['f1.txt', 'F2.rsp', 'sub\\f3.txt', 'a b.txt', 'noext', 'x.y.z', 'sub\\s p.c']
WORDS = ['a', '-o x', '# hash', '  lead', '\ttab', 'end ', 'a=b', 'x : y', '"q"', '%PATH%', 'a\\', 'b ^.', '^<<', ' <<', ' !x', '', '', '/c;d', '$$', 'c:\\d\\', '(p)', "it's", 'a\\\\', '&|>', '#', '\\', ';', '*.c', '@x', '-x', 'long ' * 40]

def gen(rng, prof):
    macros = {'M1': 'mac', 'M2': 'two words', 'M3': '-x=y', 'DIR': 'sub'}
    jobs = rng.choice([1, 2, 3, 4, 7])
    targets = []
    def text(rule):
        out = []
        cond = False
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            ps = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                x = rng.random()
                if x < 0.5: ps.append(['t', rng.choice(WORDS)])
                elif x < 0.7: ps.append(['r', rng.choice(['M1', 'M2', 'M3', 'NONE'])])
                else: ps.append(['f', rng.choice(['@', '*', '<', '@'] if rule else ['@', '*', '**', '@'])])
                if rng.random() < 0.4: ps.append(['t', ' '])
            if ps[0][0] == 't' and ps[0][1][:1] in ('!',): ps[0][1] = ' ' + ps[0][1]
            if ps[0][0] == 't' and ps[0][1].startswith('<<'): continue
            # '$' must not meet what follows, and a caret neither
            out.append({'on': True, 'l': ps})
        if out and rng.random() < 0.12:
            for ln in out[rng.randrange(len(out)):]: ln['on'] = None     # in a conditional, see below
        return out
    share = rng.random() < 0.5           # names used more than once, never at the same time
    keeps = {}
    uid = [0]
    def file(tname, rule, several, dirn, pool):
        nm = []
        if rng.random() < 0.5:
            x = rng.random()
            base = rng.choice(NAMES)
            if not share or several or pool is None:
                uid[0] += 1
                base = '%s%d.%s' % (rng.choice(['n', 'sub\\n', 'p q', 'N.x']), uid[0], rng.choice(['txt', 'rsp', 'x y']))
                if several: nm = [['f', rng.choice('@*')], ['t', '.%d.q' % uid[0]]]
                elif x < 0.15: nm = [['r', 'M1'], ['t', '%d.t' % uid[0]]]
                elif x < 0.25: nm = [['f', '@'], ['t', '.%d.q' % uid[0]]]
                else: nm = [['t', base]]
            else: nm = [['t', base]]
            if dirn and '\\' in tname and nm[0][0] == 'f': nm = [['t', 'w%d.txt' % uid[0]]]
            if dirn and nm[0][0] == 't' and nm[0][1].startswith('sub\\'): nm = [['t', nm[0][1][4:]]]
        k = rng.random() < 0.3
        if nm and nm[0][0] == 't' and not several:
            key = (dirn + '\\' if dirn else '').lower() + nm[0][1].lower()
            k = keeps.setdefault(key, k)
        return {'name': nm, 'text': text(rule), 'keep': k}
    def plain(ps): return ''.join(p[1] for p in ps)
    # recipes
    nt = rng.choice([1, 2, 3, 5, 7])
    rules = []
    chain = share and jobs > 1
    def recipe(tname, rule, several, batch=False):
        cmds, dirn = [], ''
        for _ in range(rng.choice([1, 1, 2, 3])):
            if not rule and not several and rng.random() < 0.15: dirn = '' if dirn else 'sub'
            c = {'files': [file(tname, rule, several, dirn, True) for _ in range(rng.choice([0, 1, 1, 2, 3]))], 'fails': '', 'bang': False, 'dir': dirn}
            names = [plain(f['name']).lower() for f in c['files'] if f['name']]
            if len(set(names)) < len(names): c['files'] = c['files'][:1]
            if rng.random() < 0.08: c['fails'] = 'rc'
            elif c['files'] and rng.random() < 0.02 and not rule:
                c['fails'] = 'open'; c['files'][-1]['name'] = [['t', 'nodir\\f.txt']]
            elif not rule and rng.random() < 0.12 and not any(plain(f['name']).startswith(('f', 'F', 'sub\\f', 'a b', 'noext', 'x.y', 'sub\\s')) for f in c['files'] if f['name']): c['bang'] = True
            cmds.append(c)
        return cmds
    nrule = rng.choice([0, 0, 0, 1, 2, 4, 6]) if prof != 'batch' else rng.choice([2, 3, 5, 8])
    batch = nrule and (rng.random() < 0.5 or prof == 'batch')
    deps_all = ['d1.h', 'sub\\d2.h', 'd3']
    for i in range(nt):
        n = rng.choice(['t%d.x', 'sub\\t%d.x', 't%d', 'sub\\same', 'T%d.a.b']).replace('%d', str(i + 1))
        if any(t['name'].lower() == n.lower() for t in targets): n = 'u%d' % i
        ds = rng.sample(deps_all, rng.choice([0, 1, 2, 3]))
        cs = recipe(n, False, False)
        if not ds:
            for c in cs: c['bang'] = False
        targets.append({'name': n, 'root': root(n), 'deps': ds, 'src': '', 'cmds': cs, 'kind': 'own'})
    rc = recipe('', True, True, batch) if nrule else []
    if batch:
        for c in rc:
            c['bang'] = False
            for f in c['files']:
                f['name'] = [] if rng.random() < 0.6 or not f['name'] else f['name']
                # a blank after the list of sources is nothing to look at
                for ln in f['text']:
                    ln['l'] = [['f', '<']] if rng.random() < 0.4 else [[p[0], p[1].strip(' !') or 'z'] for p in ln['l'] if p[0] != 'f'] or [['t', 'w']]
                    if ln['l'][0][1][:1] in ('!',) or ln['l'][0][1].startswith('<<'): ln['l'] = [['t', 'q']]
                if f['name'] and f['name'][0] == ['f', '*']: f['name'][0] = ['f', '@']
    for i in range(nrule):
        n = 'o%d.q2' % i
        s = n[:-1] + '1'
        targets.append({'name': n, 'root': root(n), 'deps': [s], 'src': s, 'cmds': rc, 'kind': 'rule'})
    trim = bool(batch)
    for t in targets:                        # the predefined order: chained through dependents
        pass
    if trim:
        for t in targets:
            for c in t['cmds']:
                for f in c['files']:
                    for ln in f['text']:
                        if ln['l'][-1][0] != 'f' or t['kind'] == 'own': ln['l'][-1] = ['t', '.']
    # text
    def show(ps, rule):
        o = ''
        for j, p in enumerate(ps):
            if p[0] == 't': o += p[1]
            elif p[0] == 'r': o += '$(%s)' % p[1]
            else: o += '$' + p[1] if rng.random() < 0.6 and not (j + 1 < len(ps) and (ps[j + 1][0] == 'r' or ps[j + 1][1][:1] == '*')) else '$(%s)' % p[1]
        return o
    def emit(cs, head, rule):
        ls, dirn = [], ''
        for i, c in enumerate(cs, 1):
            if c['dir'] != dirn:
                ls.append('\tcd sub' if c['dir'] else '\tcd ..'); dirn = c['dir']
            l = '\t' + ('!' if c['bang'] else '@' if rng.random() < 0.1 else '') + 'x ' + head % i
            l += ' v=$@' if rule else ''
            if c['bang']: l += ' v=$**'
            if c['fails'] == 'rc': l += ' rc=3'
            for f in c['files']:
                nm = show(f['name'], rule)
                if ' ' in plain(f['name']): nm = '"%s"' % nm
                l += ' ' + (rng.choice(['', '@', 'f=']) if not f['name'] or ('.' in plain(f['name']) and nm[0] != '"') else 'f=') + '<<' + nm
            if rule and batch: l += ' src= ' + '$<'.replace('$<', '$<')
            ls.append(l)
            for f in c['files']:
                j = 0
                tx = f['text']
                while j < len(tx):
                    if tx[j]['on'] is None:
                        on = rng.random() < 0.5
                        ls.append('!IF %d' % on)
                        while j < len(tx):
                            tx[j]['on'] = on
                            ls.append(show(tx[j]['l'], rule)); j += 1
                        ls.append('!ENDIF')
                    else: ls.append(show(tx[j]['l'], rule)); j += 1
                ls.append('<<' + (rng.choice(['KEEP', ' KEEP', '\tKEEP ']) if f['keep'] else rng.choice(['', '', 'NOKEEP', ' NOKEEP', ' '])))
        return ls
    lines = ['%s = %s' % (k, v) for k, v in macros.items()] + ['.SUFFIXES : .q1 .q2']
    order = targets[:]; rng.shuffle(order)
    chain_prev = None
    lines.append('all : ' + ' '.join(t['name'] for t in order))
    body = []
    for k, t in enumerate([t for t in order if t['kind'] == 'own']):
        ds = list(t['deps'])
        if chain and chain_prev: ds.append(chain_prev); t['deps'] = ds
        chain_prev = t['name']
        ls = [t['name'] + ' : ' + ' '.join(ds)] + emit(t['cmds'], 't%d.%%d' % (targets.index(t) + 1), False) + ['']
        body.append(ls)
    if nrule: body.append(['.q1.q2' + ('::' if batch else ':')] + emit(rc, 'r.%d', True) + [''])
    rng.shuffle(body)
    for b in body: lines += b
    for t in targets:
        for c in t['cmds']:
            for f in c['files']:
                for ln in f['text']:
                    ln['l'] = [['t', '$'] if p == ['t', '$$'] else p for p in ln['l']]
                    if ln['on'] is None: ln['on'] = True
    s = '\n'.join(lines) + '\n'
    x = rng.random()
    if rng.random() < 0.2: s = s.replace('\n', '\r\n')
    data = b'\xef\xbb\xbf' + s.encode() if x < 0.1 else b'\xff\xfe' + s.encode('utf-16-le') if x < 0.2 else s.encode()
    fs = {'Makefile': data, 'd1.h': '', 'sub/d2.h': '', 'd3': ''}
    for t in targets:
        if t['src']: fs[t['src'].replace('\\', '/')] = ''
    fs['sub/keep'] = ''
    pre = [n for n in NAMES if rng.random() < 0.1]
    for n in pre: fs[n.replace('\\', '/')] = 'old content'
    ctrlc = rng.random() < 0.12
    args = ['/NOLOGO', '/S', '/A', '/J%d' % jobs] + (['/K'] if rng.random() < 0.3 else []) + (['/Y'] if batch and rng.random() < 0.15 else [])
    if '/Y' in args: batch = False
    scen = {'mode': rng.choice(['auto', 'lazy', 'manual', 'deathfirst']), 'seed': rng.randrange(1 << 30)}
    if ctrlc: scen.update(mode='manual', ctrlc=True)
    tg = [{k: v for k, v in t.items() if k != 'kind'} for t in targets]
    return {'in': {'targets': tg, 'macros': macros, 'known': sorted(n.replace('/', '\\') for n in fs)}, 'files': fs, 'args': args, 'scenario': scen, 'trim': trim}

def root(n):
    d = n.rfind('.')
    return n[:d] if d > n.rfind('\\') else n

def obs(case, r):
    tg = case['in']['targets']
    byname = {t['name']: i for i, t in enumerate(tg, 1)}
    base = None
    def norm(fs):
        o = []
        for n, c in fs or []:
            m = re.match(r'\\.*\\tmp\\([^\\]*\.jom)$', n)
            o.append([('T:' + m.group(1)) if m else n, '<none>' if c is None else c])
        return o
    ev, live, count = [], set(), {}
    for e in r.events:
        if e['e'] == 'spawn':
            w = re.findall(r'(?:[^\s"]|"[^"]*")+', e['cmd'])
            m = re.match(r'(t(\d+)|r)\.(\d+)$', w[1]) if len(w) > 1 else None
            t = int(m.group(2)) if m and m.group(2) else byname.get(([x[2:] for x in w if x.startswith('v=')] + ['?'])[0])
            if not m or not t: ev.append({'e': 'd', 'p': -1, 'rc': 0, 'files': []}); continue
            i = int(m.group(3))
            files = norm(e['files'])
            lt = []
            if 'src=' in w:
                lt = w[w.index('src=') + 1:]
                files = [f for f in files if f[0] not in lt]
                if '/Y' in case['args']: lt = []
            if case['trim']: files = [[f[0], re.sub(r'[ ]+\r\n', '\r\n', f[1])] for f in files]
            k = count[t, i] = count.get((t, i), 0) + 1
            live.add(e['p'])
            ev.append({'e': 's', 'p': e['p'], 't': t, 'i': i, 'k': k, 'lt': lt, 'files': files})
        elif e['e'] == 'exit' and e['p'] in live:
            s = next(x for x in ev if x['e'] == 's' and x['p'] == e['p'])
            src = [t['src'] for t in tg if t['src']]
            fs = [f for f in norm(e.get('files')) if f[0] not in src]
            if case['trim']: fs = [[f[0], re.sub(r'[ ]+\r\n', '\r\n', f[1])] for f in fs]
            ev.append({'e': 'd', 'p': e['p'], 'rc': e['rc'], 'files': fs})
    left = []
    for n in r.left:
        q, t = n.replace('/', '\\'), r.texts.get(n, '<as before>')
        left.append([('T:' + q[4:]) if q.lower().startswith('tmp\\') else q, re.sub(r'[ ]+\r\n', '\r\n', t) if case['trim'] else t])
    end = [e for e in r.events if e['e'] == 'end']
    return {'how': end[-1]['how'] if end else 'none', 'rc': r.rc, 'ctrlc': any(e['e'] == 'ctrlc' for e in r.events), 'ev': ev, 'left': sorted(left)}
