"""Cases of Macro.tla: macro definitions and references as text."""
NAMES = ['A', 'B', 'C', 'ab', 'Ab', 'AB', 'x_1', 'X.y', 'LONG_name', 'Q', '7']
LITS = ['a', 'b', 'ab', 'aa', 'x', 'A', 'B', '.', '-', '_', ',', '(', ')', '()', ':', '=', 'a=b', ';', '^', '@', '*', '/', '\\q', '1', 'foo', ' ', '  b', '~', '[', '{a}', '+']
BEFORE = ['a', 'b', 'ab', 'aa', '.', 'x', 'A', 'foo', ' ', '(', '-', '^)', '^a', 'a^)', '1', '$', '*', '\\']
AFTER = ['', 'a', 'b', 'ab', 'xaax', '.', '(', '^)', '^)^)', 'a^)b', '^a', ' ', 'Z', '$', 'a a', '\\', ',', ':', 'x:y']

def ref(rng, broken):
    r = rng.random()
    if r < broken: return rng.choice(['$%', '$(', '$()', '$ ', '$)', '$.', '$-', '$(A', '$(:a=b)', '$(A:)', '$(A:b)', '$(A:a=b', '$(A:a=^)', '$_', '$(A:ab'])
    r = rng.random()
    if r < 0.2: return '$' + rng.choice('ABCQ7xZ')
    if r < 0.35: return '$$'
    n = rng.choice(NAMES) if rng.random() < 0.92 else rng.choice(['nope', 'no such', 'a-b', 'x y'])
    if r < 0.75: return '$(%s)' % n
    return '$(%s:%s=%s)' % (n, rng.choice(BEFORE), rng.choice(AFTER))

def text(rng, broken, refs, k):
    return ''.join(ref(rng, broken) if rng.random() < refs else rng.choice(LITS) for _ in range(rng.choice(k)))

def ok(t, name=None):
    """text whose meaning is not documented is left out"""
    if t.endswith('$') and (len(t) - len(t.rstrip('$'))) % 2: return False
    if name and '$$(%s)' % name in t: return False
    if '<<' in t or '^^' in t or t.endswith(('^', '\\')): return False
    # in a substitution: one '=' only, not quoted; no reference
    i = 0
    while i < len(t):
        if t[i] == '$' and i + 1 < len(t):
            if t[i + 1] == '(':
                e = i + 2
                while e < len(t) and t[e] not in ':)': e += 1
                if '$' in t[i + 2:e]: return False
                if e < len(t) and t[e] == ':':
                    z = e + 1
                    while z < len(t) and t[z] != ')': z += 2 if t[z] == '^' else 1
                    body = t[e + 1:z]
                    if z < len(t) and body.startswith('='): return False
                    if body.count('=') > 1 or '^=' in body: return False
                    if z >= len(t) and ')' not in t[e:]: pass
                    if '$' in body[:-1].replace('$=', '=') and not body.endswith('$'): return False
                    if '$' in body and '=' not in body: return False
                i = z + 1 if e < len(t) and t[e] == ':' else e + 1
                continue
            i += 2; continue
        i += 1
    return True

def gen(rng, prof):
    broken = {'plain': 0.0, 'broken': 0.05, 'cycle': 0.01}[prof]
    while True:
        items, lines = [], ['all::', '\tx first']
        items.append({'k': 'cmd', 'v': 'x first'})
        good = True
        for i in range(rng.choice([2, 4, 6, 9])):
            r = rng.random()
            if r < 0.6:
                n = rng.choice(NAMES)
                v = text(rng, broken, 0.5 if prof != 'cycle' else 0.7, [0, 1, 2, 3, 4]).strip()
                if prof == 'plain':
                    # mostly references to macros of a smaller rank, so that cycles are rare
                    bad = [m for m in NAMES[NAMES.index(n):] if m != n and ('$(%s' % m in v or '$' + m in v)]
                    if bad and rng.random() < 0.9: continue
                if rng.random() < 0.15: v = rng.choice(['$(%s)' % n + v, v + '$(%s)' % n])
                if not ok(v, n): continue
                items.append({'k': 'def', 'n': n, 'v': v}); lines.append('%s%s=%s%s' % (n, rng.choice(['', ' ']), rng.choice(['', ' ', '\t']), v))
            else:
                v = text(rng, broken, 0.6, [1, 2, 3, 5])
                # the ends are marked so that trimming does not matter
                if not ok(v + '.'): continue
                if r < 0.8:
                    items.append({'k': 'msg', 'v': 'm[' + v + '].'}); lines.append('!MESSAGE m[' + v + '].')
                else:
                    items.append({'k': 'cmd', 'v': 'x [' + v + '].'}); lines += ['all::', '\tx [' + v + '].']
        v = ''.join('$(%s)|' % n for n in NAMES)
        items.append({'k': 'msg', 'v': 'm' + v}); lines.append('!MESSAGE m' + v)
        v = text(rng, broken, 0.6, [3, 5, 8])
        if not ok(v + '.'): continue
        items.append({'k': 'cmd', 'v': 'x [' + v + '].'}); lines += ['all::', '\tx [' + v + '].']
        if sum(len(i['v']) for i in items) < 400: break
    return {'in': {'items': items}, 'files': {'Makefile': '\n'.join(lines) + '\n'}, 'args': ['/NOLOGO', '/S']}

def obs(case, r):
    cmds = [e['cmd'] for e in r.events if e['e'] == 'spawn']
    if r.rc == 0: how = 'ok'
    elif 0 < r.rc < 90 and r.err and not cmds: how = 'err'
    else: how = 'rc=%s cmds=%s' % (r.rc, cmds)
    lines = r.out.split('\n')
    if lines and lines[-1] == '': lines.pop()
    return {'how': how, 'out': lines, 'cmds': cmds}
