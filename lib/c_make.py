"""Cases of Makefile.tla: the text of makefiles, from logical structure to messy physical lines.
LONG<n>. in the lines that the specification gets stands for a word of n letters."""
import re
PLAIN = ['t1', 't2', 'foo.o', 'Foo', 'bar.c', 'sub/x.c', 'sub/y.c', 'w1.q', 'w2.q', 'w3.q', 'sub/w4.q', 'a-b', 'n+m', 'x_y', '[z]', '{q}', 'a,b', 'h~1', 'f(1)', 'u=v', '@at', 'no!', '.dot.x', 'a.b.c', '1st',
         'much_longer_name.with.dots', 'd:rel', 'in;side', 'ha#sh', "it's", '--x']
SPACED = ['a b', 'c  d.e', 'x y z.c', 'semi; colon', 'no # comment', 'tab\there']
TARGETS_BAD = {'u=v', 'in;side', '.dot.x', '--x'}
TEXTS = ['a', 'b c', '# no comment', 'a;b', ': c', 'd=e', '"q  r"', "'", '(x)', '1,2', '$$', 'e  f', '\\', '~', '$(M1)', '$(M2)', '$(M3)', '$(NONE)', 'x#y', '!z', '{}', '$(M1)$(M2)', '"#"', 'a::b']
VALUES = ['v', 'v w', 'p  q', '"r s"', 'x=y', 'a^#b', 'l;m', 'n:o', '$(M1)', '$(M2) z', '', '(u', 'c^#^#d', 'e^##f']
COMMENTS = ['# comment', '#', '#x : y', '# t1 : no', '# ; x', '## "', '# back\\slash']

def quote(n, rng):
    if ' ' in n or '\t' in n or ';' in n or ('#' in n and rng.random() < 0.6): return '"%s"' % n
    n2 = n.replace('#', '^#')
    return '"%s"' % n2 if rng.random() < 0.08 and n2 == n else n2

class R:
    def __init__(self, rng, prof):
        self.rng = rng
        self.mess = 0.15 if prof == 'blocks' else 0.45
        self.lines = []
    def ch(self, p): return self.rng.random() < p
    def gap(self):
        """white space between two words, possibly with a line break"""
        rng = self.rng
        if not self.ch(self.mess * 0.5): return rng.choice([' ', ' ', ' ', '  ', '\t', ' \t'])
        cm = ''
        if self.ch(0.15): cm = rng.choice(COMMENTS) + rng.choice(['', '\\', ' \\']) + '\n'
        return rng.choice(['', ' ', '\t']) + '\\\n' + cm + rng.choice(['', ' ', '    ', '\t', '\t\t'])
    def put(self, text, comment=True, trail=True):
        rng = self.rng
        if comment and self.ch(self.mess * 0.5): text += rng.choice([' ', '  ', '\t', '']) + rng.choice(COMMENTS)
        if trail and self.ch(self.mess * 0.4) and not text.endswith(('\\', '^')): text += rng.choice([' ', '  ', '\t'])
        # a line must not end in what joins it with the next one by accident
        if text.endswith('^'): text += ' '
        self.lines += text.split('\n')
    def between(self):
        while self.ch(self.mess * 0.3): self.lines.append(self.rng.choice(COMMENTS))

def gen(rng, prof):
    r = R(rng, prof)
    nt = rng.choice([2, 3, 4, 6, 8] if prof == 'blocks' else [2, 3])
    pool = [n for n in PLAIN + SPACED if n not in TARGETS_BAD]
    rng.shuffle(pool)
    targets = []
    for n in pool:
        if len(targets) < nt and n.lower() not in [t.lower() for t in targets]: targets.append(n)
    files = [n for n in PLAIN + SPACED if n.lower() not in [t.lower() for t in targets]]
    def spell(n):
        return n.swapcase() if rng.random() < 0.1 else n.upper() if rng.random() < 0.05 else n
    def dep(rank):
        x = rng.random()
        if x < 0.5 and rank > 0: return quote(spell(targets[rng.randrange(rank)]), rng)
        if x < 0.5: x = 0.7
        if x < 0.505: return rng.choice(['nofile', 'no file']).join(['"', '"'])
        if x < 0.515: return quote(rng.choice(targets), rng)         # may well be a cycle
        if x < 0.60: return rng.choice(['*.q', 'w*.q', 'sub/*.c', 'w1*', '*.nope'])
        if x < 0.63: return '$(L%d)' % rng.choice([1, 2])
        if x < 0.65: return rng.choice(['$$@.d', 'pre.$$@'])
        return quote(rng.choice(files), rng)
    def ok_dep(d, ts):
        return '$$@' not in d or True
    macs = {}
    for m in ['M1', 'M2', 'M3', 'L1', 'L2']:
        if rng.random() < 0.7:
            v = rng.choice(VALUES) if m[0] == 'M' else r.gap().join(quote(rng.choice(files), rng) for _ in range(rng.choice([1, 2, 3])))
            if any('$(M%d)' % k in v for k in range(int(m[1]) + (0 if v.strip() == '$(%s)' % m else 0), 4) if m[0] == 'M'): v = 'plain'
            if m[0] == 'M' and rng.random() < r.mess:
                v += r.gap() + rng.choice(VALUES[:5])
            if m[0] == 'M' and rng.random() < 0.1: v = '$(%s)' % m + v
            if m[0] == 'L' and '#' in v: v = v.replace('^#', '#').replace('#', '')   # a quoted # would lose its ^ twice
            if m[0] == 'M' and v and rng.random() < 0.08: v += rng.choice(['\\\\', '^\\', ' ^\\', '\\\\\\'])
            r.put(m + rng.choice(['', ' ', '\t']) + '=' + rng.choice(['', ' ', '  ', '\t']) + v, comment=True)
            r.between()
            if rng.random() < 0.3: r.lines.append(rng.choice(['', '   ', '\t']))
    uid = [0]
    used = {}
    def command(several):
        uid[0] += 1
        words = ['x', 'k%d' % uid[0]] + [rng.choice(TEXTS) for _ in range(rng.choice([0, 1, 2, 3]))]
        if several or rng.random() < 0.8: words.append('[$@]')
        if rng.random() < 0.7: words.append('[$**]')
        if prof == 'lines' and rng.random() < 0.02: words.append('LONG%d.' % rng.choice([1000, 6130, 6140, 6150, 7160, 7170, 7180, 8300]))
        out = words[0]
        for w in words[1:]:
            g = r.gap()
            if out.endswith('\\') and g.startswith('\\'): g = ' ' + g
            out += g + w
        if out.endswith(('\\', '^')): out += ' .'
        if r.ch(0.06): out += rng.choice([' ', 'e', ' e']) + rng.choice(['\\\\', '^\\', 'z\\\\', '\\\\\\'])   # two at the end join nothing
        return out
    order = list(range(nt))
    blocks = [[i] for i in range(nt)]
    for _ in range(rng.choice([0, 1, 2, 3] if prof == 'blocks' else [0, 1])):
        blocks.append(sorted(rng.sample(order, min(nt, rng.choice([1, 1, 2, 3])))))
    rng.shuffle(blocks)
    kinds = {}
    for b in blocks:
        k = rng.choice([':', ':', '::'])
        for i in b: k = kinds.get(i, k)
        if rng.random() < 0.97:
            b = [i for i in b if kinds.get(i, k) == k]
        for i in b: kinds.setdefault(i, k)
        rank = min(b)
        names = [quote(spell(targets[i]) if rng.random() < 0.3 else targets[i], rng) for i in b]
        deps = [dep(rank) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        line = names[0]
        for n in names[1:]: line += r.gap() + n
        glue = rng.choice(['', ' ', '\t', '  '])
        if len(names[-1].strip('"')) == 1 or names[-1][-2:-1] in ' \t"' or (len(names[-1]) > 1 and names[-1][-2] in ' \t' ): glue = glue or ' '
        line += glue + k
        for d in deps: line += (r.gap() if not line.endswith(k) or rng.random() < 0.9 else rng.choice([' ', '\t'])) + d
        cmds = [command(len(b) > 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        inplace = rng.random() < 0.2
        if inplace:
            c = cmds.pop(0) if cmds else rng.choice(['', command(len(b) > 1)])
            line += rng.choice(['', ' ', '\t']) + ';' + rng.choice(['', ' ', '  ']) + c
            if line.endswith('\\') and not line.endswith(('\\\\', '^\\')): line += ' .'
        r.put(line, comment=not inplace)
        if not cmds or rng.random() < 0.01: r.lines.append('')
        elif rng.random() < r.mess * 0.2: r.lines.append(rng.choice([' ', '\t', '   ']))
        for i, c in enumerate(cmds):
            r.between()
            if i and rng.random() < r.mess * 0.3: r.lines.append(rng.choice(['', ' ', '\t']))
            r.put(rng.choice(['\t', ' ', '    ', '\t\t', ' \t']) + c, comment=False)
        r.between()
        if rng.random() < 0.3: r.lines.append(rng.choice(['', '', '\t', '  ']))
        if rng.random() < 0.1:
            r.put('%s = %s' % (rng.choice(['M1', 'M2', 'M3']), rng.choice(['changed', 'ch anged', ''])))
    lines = r.lines
    while lines and lines[-1] == '': lines.pop()
    if rng.random() < 0.03:
        def joined(i):      # is line i joined with one before it?
            while i and lines[i - 1].startswith('#'): i -= 1
            return i and lines[i - 1].endswith('\\')
        at = [i for i in range(len(lines) + 1) if not joined(i)]
        lines.insert(rng.choice(at), rng.choice(['\tx stray', 'no colon', '= b', ': x', '!']) if rng.random() < 0.8 else 'x stray : "')
        lines = [l if l != '!' else 'what is this' for l in lines]
    if any(l.startswith('!') for l in lines): return gen(rng, prof)     # would be a directive
    nl = rng.choice(['\n', '\n', '\r\n'])
    s = nl.join(re.sub(r'LONG(\d+)\.', lambda m: 'y' * int(m.group(1)), l) for l in lines) + (nl if rng.random() < 0.8 else '')
    x = rng.random()
    data = b'\xef\xbb\xbf' + s.encode() if x < 0.15 else b'\xff\xfe' + s.encode('utf-16-le') if x < 0.25 else s.encode()
    goals = []
    if rng.random() < 0.8:
        goals = [spell(t) for t in rng.sample(targets, rng.randint(1, nt))]
        if rng.random() < 0.02: goals.insert(rng.randrange(len(goals) + 1), 'nogoal')
    goals = [g.replace('/', '\\') for g in goals if '=' not in g and not g.startswith(('-', '/', '@'))]
    away = rng.random() < (0.15 if prof == 'blocks' else 0.04)
    existing = sorted(files) + ['t1.d', 'foo.o.d', 'pre.t2', 'pre.Foo']
    fs = {f: '' for f in existing if not f.startswith('/')}
    fs['Makefile'] = data
    names = sorted(f.replace('/', '\\') for f in fs)
    args = ['/NOLOGO', '/S', '/A', '/J1']
    globs = names
    if away:
        # the makefile is elsewhere, and that is where wildcards look; what they find is there too
        del fs['Makefile']
        d = rng.choice(['mk', 'mk', 'mk\\er'])
        globs = sorted(f for f in names if f not in ('Makefile',) and rng.random() < 0.5)
        for f in globs: fs[d.replace('\\', '/') + '/' + f.replace('\\', '/')] = ''
        fs[d.replace('\\', '/') + '/m.mak'] = data
        args += ['/F', rng.choice([d, d.replace('\\', '/'), '.\\' + d]) + '\\m.mak']
        names = sorted(f.replace('/', '\\') for f in fs)
        globs.append('m.mak')
    return {'in': {'lines': lines, 'goals': goals, 'files': names, 'globs': globs},
            'files': fs, 'args': args + goals}

def obs(case, r):
    cmds = [e['cmd'] for e in r.events if e['e'] == 'spawn' and e['cmd'].strip().lower() != 'cmd.exe /c']    # not the empty command
    cmds = [re.sub('y{1000,}', lambda m: 'LONG%d.' % len(m.group(0)), c) for c in cmds]
    if r.rc == 0: how = 'ok'
    elif 0 < r.rc < 90 and r.err: how = 'err'
    else: how = 'rc=%s' % r.rc
    return {'how': how, 'cmds': cmds}
