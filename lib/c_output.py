"""Cases of Output.tla: parallel recipes whose commands print."""
import re

def tok(t, i, s, n): return '[%02d.%02d%s%04d]...\n' % (t, i, s, n)   # 16 bytes

def gen(rng, prof):
    nt = rng.choice([1, 2, 3, 4, 5, 6])
    jobs = rng.choice([1, 2, 2, 3, 4])
    K = rng.random() < 0.4
    silent = rng.random() < 0.2
    shown = rng.random() < 0.15                      # /N must not matter here; kept for variety of option order
    targets, procs, lines = [], {}, []
    shape = rng.random()
    deps = {}
    for t in range(1, nt + 1):
        if shape < 0.6: deps[t] = [] if t < nt else list(range(1, nt))
        else: deps[t] = [d for d in range(1, t) if rng.random() < 0.35 or t == nt]
    for t in range(1, nt + 1):
        cmds, ls = [], []
        for i in range(1, rng.choice([1, 1, 2, 3]) + 1):
            at = rng.random() < 0.4
            if rng.random() < 0.08:
                cmds.append({'echo': not at and not silent, 'o': 0, 'e': 0, 'fails': False, 'quiet': True})
                ls.append('\t' + '@' * at + 'rem %d.%d' % (t, i))
                continue
            no = rng.choice([0, 1, 1, 2, 3, 5]); ne = rng.choice([0, 0, 1, 2, 3])
            big = prof == 'big' and rng.random() < 0.3
            if big: no = rng.choice([255, 256, 257, 300, 600, 1100])
            order = ['o'] * no + ['e'] * ne
            if not big: rng.shuffle(order)
            elif rng.random() < 0.5: order = order[no:] + order[:no]
            steps, n = [], {'o': 0, 'e': 0}
            while order:
                k = order.pop(0); n[k] += 1
                text = tok(t, i, k, n[k])
                many = rng.choice([1, 1, 2, 3]) if not big else rng.choice([1, 50, 300, 1200])
                while many > 1 and order and order[0] == k:
                    order.pop(0); n[k] += 1; text += tok(t, i, k, n[k]); many -= 1
                steps.append([k, text])
            fails = rng.random() < 0.12
            tol = fails and rng.random() < 0.3
            if rng.random() < 0.1: steps.append(['c'])
            p = {'steps': steps}
            if rng.random() < 0.04: p['leak'] = True      # something it has started keeps the pipes
            if fails: p['rc'] = rng.choice([1, 3, 255])
            procs['%d.%d' % (t, i)] = p
            cmds.append({'echo': not at and not silent, 'o': no, 'e': ne, 'fails': fails and not tol, 'quiet': False})
            ls.append('\t' + ('@' if at else '') + ('-' if tol else '') + 'x %d.%d' % (t, i) + (' > nul' if rng.random() < 0.04 else ''))
            if ls[-1].endswith('nul'):
                p['steps'] = []; cmds[-1]['o'] = cmds[-1]['e'] = 0
                ls[-1] = ls[-1][:-6]
        targets.append(cmds)
        lines.append(('t%d :' % t + ''.join(' t%d' % d for d in deps[t]), ls))
    mk = ''
    for head, ls in reversed(lines): mk += head + '\n' + '\n'.join(ls) + '\n'
    scen = {'procs': procs, 'seed': rng.randrange(1 << 30), 'mode': {'preempt': 'auto', 'packets': 'packets'}.get(prof) or rng.choice(['auto', 'lazy', 'manual', 'deathfirst'])}
    if prof == 'preempt': scen['preempt'] = rng.choice([0.1, 0.3, 0.6])
    return {'in': {'t': targets}, 'files': {'Makefile': mk}, 'args': ['/NOLOGO', '/J', str(jobs)] + (['/K'] if K else []) + (['/S'] if silent else []), 'scenario': scen}

RX = re.compile(r'\[(\d\d)\.(\d\d)([oe])(\d{4})\]\.\.\.\n|\t(?:x|rem) (\d+)\.(\d+)\n|(jom: [^\n]*? \[t(\d+)\] Error \d+\n)|(jom: Option /K specified. Continuing.\n)|(jom: Target \'t\d+\' cannot be built due to failed dependencies.\n)')

def obs(case, r):
    T = case['in']['t']
    ev, who, order, wrote, alive = [], {}, [], {}, []
    # where the text of every stream begins
    text = {1: '', 2: ''}; start = {1: [], 2: []}
    for e in r.events:
        if e['e'] == 'spawn':
            if '.' not in e['id']: return {'ev': [], 'how': 'unexpected command ' + e['cmd'], 'rc': r.rc}
            t, i = e['id'].split('.'); who[e['p']] = (int(t), int(i))
            order.append(('s',) + who[e['p']]); alive.append(who[e['p']])
        elif e['e'] == 'death':
            if who[e['p']] in alive: alive.remove(who[e['p']])
            order.append(('d',) + who[e['p']])
        elif e['e'] == 'chunk': wrote.setdefault(who[e['p']], [0, 0])[e['s'] - 1] += len(e['d']) // 16
        elif e['e'] == 'idle' and case['scenario']['mode'] == 'auto' and e['n_opts']:
            # nothing is on its way to jom now
            order.append(('i', [{'t': t, 'i': i, 'o': n[0], 'e': n[1]} for (t, i), n in sorted((c, wrote.get(c, [0, 0])) for c in alive)]))
        elif e['e'] == 'w':
            start[e['s']].append((len(text[e['s']]), len(order))); text[e['s']] += e['d']; order.append(('w', e['s'], len(start[e['s']]) - 1))
    # tokens of each stream, attributed to the write they begin in
    per = {}
    for s in (1, 2):
        pos, k = 0, 0
        for m in list(RX.finditer(text[s])) + [None]:
            a = m.start() if m else len(text[s])
            def put(p, what):
                nonlocal k
                while k + 1 < len(start[s]) and start[s][k + 1][0] <= p: k += 1
                per.setdefault(start[s][k][1], []).append(what)
            if a > pos: put(pos, {'e': 'w', 't': 0, 'i': 0, 's': s, 'a': 0, 'b': 0, 'x': text[s][pos:a][:80]})
            if not m: break
            pos = m.end()
            if m.group(1):
                t, i, n = int(m.group(1)), int(m.group(2)), int(m.group(4))
                good = (m.group(3) == 'o') == (s == 1) and 0 < t <= len(T) and 0 < i <= len(T[t - 1])
                put(a, {'e': 'w', 't': t if good else 0, 'i': i, 's': s, 'a': n, 'b': n})
            elif m.group(5): put(a, {'e': 'w', 't': int(m.group(5)) if s == 1 else 0, 'i': int(m.group(6)), 's': s, 'a': 0, 'b': 0})
            elif m.group(7):
                t = int(m.group(8)); bad = [i for i, c in enumerate(T[t - 1], 1) if c['fails']]
                i = bad[0] if bad else 0
                put(a, {'e': 'w', 't': t if s == 2 and i else 0, 'i': i, 's': s, 'a': T[t - 1][i - 1]['e'] + 1, 'b': T[t - 1][i - 1]['e'] + 1})
            elif s == 1: put(a, {'e': 'w', 't': 0, 'i': 0, 's': s, 'a': 0, 'b': 0, 'x': m.group(0)})
    for k, o in enumerate(order):
        if o[0] == 'i':
            if o[1] and not (ev and ev[-1]['e'] == 'i' and ev[-1]['w'] == o[1]): ev.append({'e': 'i', 'w': o[1]})
            continue
        if o[0] != 'w': ev.append({'e': o[0], 't': o[1], 'i': o[2]}); continue
        for w in per.get(k, []):
            p = ev[-1] if ev else None
            if p and p['e'] == 'w' and w['t'] and p['t'] == w['t'] and p['i'] == w['i'] and p['s'] == w['s'] and p['b'] + 1 == w['a'] and w['a'] > 1: p['b'] = w['b']
            else: ev.append(w)
    end = [e for e in r.events if e['e'] == 'end']
    return {'ev': ev, 'how': end[-1]['how'] if end else 'none', 'rc': r.rc}
