"""Cases of Preprocess.tla: makefiles with conditionals, included files and macro definitions."""
import random, re, simrun

PREDEF = [('CC', 'cl'), ('CXX', 'cl'), ('RC', 'rc'), ('AS', 'ml'), ('CPP', 'cl'), ('BC', 'bc'), ('COBOL', 'cobol'), ('FOR', 'fl'), ('PASCAL', 'pl')]
PREDEF += [(n, '') for n in ['ASFLAGS', 'BCFLAGS', 'CCFLAGS', 'COBOLFLAGS', 'CPPFLAGS', 'CXXFLAGS', 'FORFLAGS', 'PASCALFLAGS', 'RCFLAGS']]
# these also go before the environment; what they are depends on where the program runs and is replaced by a name in what is observed
OWN = [('MAKE', 'MAKEPROG'), ('MAKEDIR', 'MAKEDIRECTORY')]
def own(s): return re.sub(r'\\[^ ]*?\\winsim', 'MAKEPROG', re.sub(re.escape(simrun.scratch_root().replace('/', '\\')) + r'\\r\d+\.\d+\\w', 'MAKEDIRECTORY', s))
LIT = lambda s: {'t': 'lit', 'v': s}
REF = lambda s: {'t': 'ref', 'v': s}
NAMES = ['A', 'Bb', 'b_1', 'M', 'aA', 'X.y', 'ENV1', 'ENV2', 'CC', 'CXX', 'RC', 'CMD1', 'CMD2', 'cc', 'env1',
         'MAKE', 'MAKEDIR'] + [n for n, _ in PREDEF[4:]]

class G:
    def __init__(s, rng, prof):
        s.r = rng; s.prof = prof; s.n = 0; s.frozen = set(); s.envn = set()
    def uid(s):
        s.n += 1; return s.n
    def ch(s, p): return s.r.random() < p
    def lit(s): return LIT(s.r.choice(['a', 'b', 'c', 'xy', 'Z', '1', 'v-', '.', 'q_q']))
    def parts(s, depth=2, refs=0.5):
        return [REF(s.r.choice(NAMES)) if s.ch(refs) else s.lit() for _ in range(s.r.choice([0, 1, 1, 2, 2, 3]))]
    def name(s): return s.r.choice(NAMES)
    def cond(s, d=2):
        r = s.r.random()
        if d == 0 or r < 0.25: return {'c': 'num', 'v': s.r.choice([0, 1, 0, 1, 2])}
        if r < 0.5: return {'c': 'defd', 'n': s.name()}
        if r < 0.75:
            a = s.parts()
            b = s.parts(refs=0.2) if s.ch(0.6) else list(a)
            return {'c': 'eq', 'a': a, 'b': b}
        if r < 0.85: return {'c': 'not', 'x': s.cond(d - 1)}
        return {'c': s.r.choice(['and', 'or']), 'x': s.cond(d - 1), 'y': s.cond(d - 1)}
    def badcond(s, els): return {'c': 'bad', 'text': s.r.choice(['1 +', '(1', '"a" == b', '== 2', '1 2', '1/0'] + ['$(X'] + ([] if els else ['']))}
    def head(s, els, bad=0.0):
        if s.ch(0.5):
            return {'k': 'elseif' if els else 'if', 'c': s.badcond(els) if s.ch(bad) else s.cond()}
        return {'k': 'elseifdef' if els else 'ifdef', 'n': [LIT(s.name())] if s.ch(0.9) else [REF('NAMER')], 'neg': s.ch(0.5)}
    def simple(s, inrecipe, dead):
        """one ordinary line; dead: the line is not expected to take effect and may be anything"""
        r = s.r
        x = r.random()
        if dead and x < 0.3:
            return r.choice([{'k': 'bad', 'text': r.choice(['!FOO', '!MESSAGE $(unclosed', '!MESSAGE $(', 'A = $(open\nnonsense', 'a line that means nothing', '\tx not in a recipe $(', '!', '!INCLUDE', '$$$ $ $( ', '!UNDEF $('])},
                             {'k': 'error', 'text': 'no way'}, {'k': 'include', 'form': r.choice(['plain', 'angle']), 'v': [LIT('nope.mak')]},
                             {'k': 'msg', 'v': [LIT('M'), REF('CYC')]}])
        if inrecipe and x < 0.6: return {'k': 'cmd', 'v': [LIT('x k%d ' % s.uid())] + s.parts() + [LIT('.')]}
        if inrecipe or x < 0.3: return {'k': 'msg', 'v': [LIT('M%d.' % s.uid())] + s.parts()}
        if x < 0.65:
            n = s.name()
            if n in s.envn: v = ([REF(n)] if s.ch(0.3) else []) + [s.lit(), LIT('e')]
            else: v = s.parts() + ([REF(n)] if s.ch(0.15) else [])
            return {'k': 'def', 'n': n, 'v': v}
        if x < 0.72:
            n = s.name()
            if n in s.frozen: n = 'A'
            return {'k': 'undef', 'n': n}
        if x < 0.9 or not s.incs: return {'k': 'rule', 'v': [LIT('x c%d ' % s.uid())] + s.parts() + [LIT('.')]}
        if x < 0.96: return s.include()
        if s.ch(0.2): return {'k': 'error', 'text': 'stop'}
        return {'k': 'msg', 'v': [LIT('M%d' % s.uid())]}
    def include(s):
        n = s.r.choice(s.incs)
        v = [LIT(n)]
        if s.ch(0.2): v = [REF('INCNAME')]
        if s.ch(0.03): v = [LIT('nope.mak')]
        return {'k': 'include', 'form': s.r.choice(['plain', 'plain', 'angle']), 'v': v}
    def block(s, size, depth, inrecipe=False, dead=False):
        out = []
        while size > 0:
            if depth and s.ch({'cond': 0.4, 'include': 0.15, 'macro': 0.12}[s.prof]):
                isdead = dead
                # a whole conditional
                lines = []
                h = s.head(False, 0.3 if dead else 0.01)
                lines.append(h)
                zero = lambda h: h.get('c', {}).get('c') == 'num' and h['c']['v'] == 0
                one = lambda h: h.get('c', {}).get('c') == 'num' and h['c']['v'] != 0
                rest = one(h)
                k = s.r.choice([0, 0, 1, 2, 3])
                lines += s.block(s.r.choice([0, 1, 1, 2, 3]), depth - 1, inrecipe, dead or zero(h))
                for _ in range(s.r.choice([0, 0, 1, 1, 2])):
                    h = s.head(True, 0.3 if rest or dead else 0.01)
                    lines.append(h)
                    lines += s.block(s.r.choice([0, 1, 1, 2]), depth - 1, inrecipe, dead or rest or zero(h))
                    rest = rest or one(h)
                if s.ch(0.6):
                    lines.append({'k': 'else'})
                    lines += s.block(s.r.choice([0, 1, 1, 2]), depth - 1, inrecipe, dead or rest)
                lines.append({'k': 'endif'})
                size -= len(lines) // 2 + 1
                out += lines
            elif not inrecipe and s.ch(0.12):
                out.append({'k': 'rule', 'v': [LIT('x c%d ' % s.uid())] + s.parts() + [LIT('.')]})
                out += s.block(s.r.choice([1, 2, 3]), min(depth, 1), True, dead)
                size -= 3
            else:
                out.append(s.simple(inrecipe, dead)); size -= 1
        return out

def ptext(ps): return ''.join(p['v'] if p['t'] == 'lit' else '$(%s)' % p['v'] for p in ps)

def ctext(c, rng):
    k = c['c']
    if k == 'num': return str(c['v'])
    if k == 'defd': return rng.choice(['DEFINED(%s)', 'defined( %s )']) % c['n']
    if k == 'eq': return '"%s"%s"%s"' % (ptext(c['a']), rng.choice([' == ', '==']), ptext(c['b']))
    if k == 'bad': return c['text']
    if k == 'not': return '!(%s)' % ctext(c['x'], rng)
    return '(%s) %s (%s)' % (ctext(c['x'], rng), '&&' if k == 'and' else '||', ctext(c['y'], rng))

def render(l, rng):
    def case(w): return w if rng.random() < 0.6 else w.lower() if rng.random() < 0.5 else w.title()
    def bang(w): return '!' + rng.choice(['', '', ' ', '\t']) + case(w)
    cm = rng.choice(['', '', '', ' # note', '\t#', ' '])
    k = l['k']
    if k == 'def': return '%s%s=%s%s' % (l['n'], rng.choice(['', ' ']), rng.choice(['', ' ', '  ']), ptext(l['v'])) + rng.choice(['', '', ' ', ' # note'])
    if k == 'undef': return bang('UNDEF') + ' ' + l['n'] + cm
    if k == 'msg': return bang('MESSAGE') + rng.choice([' ', '  ', '\t']) + ptext(l['v']) + cm
    if k == 'error': return bang('ERROR') + ' ' + l['text']
    if k == 'bad': return l['text']
    if k == 'include':
        n = ptext(l['v'])
        if rng.random() < 0.3: n = n.replace('/', '\\')
        if l['form'] == 'angle': return bang('INCLUDE') + ' <' + n + '>' + cm
        if rng.random() < 0.25: return case('INCLUDE') + rng.choice([' ', '\t']) + n
        return bang('INCLUDE') + ' ' + (('"%s"' % n) if rng.random() < 0.4 else n) + cm
    if k == 'if': return bang('IF') + ' ' + ctext(l['c'], rng) + cm
    if k == 'ifdef': return bang('IFNDEF' if l['neg'] else 'IFDEF') + ' ' + ptext(l['n']) + cm
    els = rng.choice(['ELSE', 'ELSE '])
    if k == 'elseif': return bang(els + 'IF') + ' ' + ctext(l['c'], rng) + cm
    if k == 'elseifdef': return bang(els + ('IFNDEF' if l['neg'] else 'IFDEF')) + ' ' + ptext(l['n']) + cm
    if k == 'else': return bang('ELSE') + cm
    if k == 'endif': return bang('ENDIF') + cm
    if k == 'rule': return 'all::\n' + rng.choice(['\t', '  ']) + ptext(l['v'])
    if k == 'cmd': return rng.choice(['\t', '  ']) + ptext(l['v'])

WORDS = ['f1', 'f2', 'f3', 'f4', 'cl', 'ml', 'rc']

def gen_dep(rng):
    """macros in the names and the dependents of blocks, whose commands stand elsewhere than where they are performed"""
    E, R = rng.random() < 0.3, rng.random() < 0.3
    names = rng.sample(['A', 'Bb', 'M', 'ENV1', 'ENV2', 'CC', 'RC', 'AS', 'CMD1'], rng.choice([2, 3, 5]))
    word = lambda: LIT(rng.choice(WORDS))
    def words(k, refs=0.4):
        out = []
        for i in range(rng.choice(k)):
            if out: out.append(LIT(' '))
            out.append(REF(rng.choice(names)) if rng.random() < refs else word())
        return out
    env = [{'n': n, 'v': [word()]} for n in ['ENV1', 'ENV2', 'CC', 'RC'] if rng.random() < 0.4]
    cmd = [{'n': n, 'v': [word()]} for n in ['CMD1', 'ENV2', 'RC'] if rng.random() < 0.3]
    frozen = {x['n'] for x in cmd} | ({x['n'] for x in env} if E else set())
    count = [0]
    def block():
        count[0] += 1
        n = [LIT('b%d' % count[0])]
        out = []
        w = words((0, 1, 1, 2), 0.8) + [LIT('.')]
        if rng.random() < 0.3:
            out.append({'k': 'def', 'n': 'NM', 'v': n if rng.random() < 0.5 else [LIT('b')]})
            n = [REF('NM')] if out[-1]['v'] is n else [REF('NM'), LIT(str(count[0]))]
        if rng.random() < 0.2: out.append({'k': 'dep', 'n': [LIT('b%d' % count[0])], 'v': [LIT('u%d.s%d' % (count[0], count[0]))], 'w': w, 'rule': True})
        else: out.append({'k': 'dep', 'n': n, 'v': words((1, 1, 2, 3), 0.7), 'w': w, 'rule': False})
        return out
    def define():
        n = rng.choice(names)
        if rng.random() < 0.15 and n not in frozen: return {'k': 'undef', 'n': n}
        # no macro may come to refer to itself
        return {'k': 'def', 'n': n, 'v': ([REF(n), LIT(' ')] if rng.random() < 0.2 else []) + ([REF(m) for m in [rng.choice(names)] if names.index(m) > names.index(n) and rng.random() < 0.5] or [word()]) + ([LIT(' '), word()] if rng.random() < 0.2 else [])}
    body = [{'k': 'rule', 'v': [LIT('x base')]}]
    for _ in range(rng.choice([2, 4, 6, 9])):
        r = rng.random()
        if r < 0.45: body.append(define())
        elif r < 0.85: body += block()
        elif r < 0.93: body.append({'k': 'rule', 'v': [LIT('x c ')] + words((1, 2)) + [LIT('.')]})
        else:
            body.append({'k': 'ifdef', 'n': [LIT(rng.choice(names))], 'neg': rng.random() < 0.5} if rng.random() < 0.5 else {'k': 'if', 'c': {'c': 'eq', 'a': [REF(rng.choice(names))], 'b': [word()]}})
            body += rng.choice([block, lambda: [define()]])()
            if rng.random() < 0.5: body.append({'k': 'else'}); body += rng.choice([block, lambda: [define()]])()
            body.append({'k': 'endif'})
    body.append(define()); body.append(define())
    # the last letters of the names are not what a self reference to an unexported macro should see
    for x in body:
        if x['k'] == 'def' and x['n'] in frozen | {y['n'] for y in env}: 
            x['v'] = [p for p in x['v'] if p['t'] == 'lit' or p['v'] != x['n']] or [word()]
            if x['v'][0]['v'] == ' ': del x['v'][0]
    lines, more = [], {}
    for l in body:
        if l['k'] == 'dep':
            n, d = ptext(l['n']), ptext(l['v'])
            cm = 'x $@ $** . ' + ptext(l['w'])
            sep = rng.choice([' : ', ': ', ' :'])
            if l['rule']:
                # through an inference rule
                src = d
                o = src.replace('.s', '.o')
                rule = ['.SUFFIXES: %s %s' % (src[src.index('.'):], o[o.index('.'):]), '%s%s:\n\tx %s $< . %s' % (src[src.index('.'):], o[o.index('.'):], n, ptext(l['w']))]
                rng.shuffle(rule)
                lines.append('all:: ' + o + '\n' + '\n'.join(rule)); more[src] = ''
                continue
            head = n + sep + d
            if rng.random() < 0.3: body2 = head + ' ; ' + cm
            elif rng.random() < 0.3 and d: body2 = n + sep + '\\\n  ' + d + '\n\t' + cm
            else: body2 = head + rng.choice(['', ' ', ' # note']) + '\n\t' + cm
            lines.append('all:: ' + n + '\n' + body2)
        elif l['k'] in ('if', 'ifdef', 'else', 'endif', 'undef', 'rule'): lines.append(render(l, rng))
        else: lines.append('%s%s=%s%s' % (l['n'], rng.choice(['', ' ']), rng.choice(['', ' ']), ptext(l['v'])))
        if rng.random() < 0.3: lines.append('')
    files = dict({w: '' for w in WORDS}, **more)
    files['Makefile'] = '\n'.join(lines) + '\n'
    args = ['/NOLOGO', '/S', '/J', str(rng.choice([1, 1, 3]))] + (['/E'] if E else []) + (['/R'] if R else []) + ['%s=%s' % (x['n'], ptext(x['v'])) for x in cmd]
    return {'in': {'files': {'Makefile': {'dir': '', 'lines': strip(body)}}, 'top': 'Makefile',
                   'cmdline': cmd, 'env': env, 'predef': [{'n': n, 'v': [LIT(v)]} for n, v in PREDEF], 'own': [{'n': n, 'v': [LIT(v)]} for n, v in OWN], 'E': E, 'R': R},
            'files': files, 'args': args, 'env': {x['n']: ptext(x['v']) for x in env}, 'dep': True}

def gen(rng, prof):
    if prof == 'dep': return gen_dep(rng)
    g = G(rng, prof)
    E, R = rng.random() < 0.3, rng.random() < 0.3
    env, cmd = [], []
    for n in ['ENV1', 'ENV2', 'CC', 'RC', 'CMD1', 'MAKE', 'BC']:
        if g.ch(0.4): env.append({'n': n, 'v': [LIT('env%s' % n)] + ([REF('aA')] if g.ch(0.2) else [])})
    for n in ['CMD1', 'CMD2', 'CXX', 'ENV2', 'RC', 'MAKE', 'MAKEDIR']:
        if g.ch(0.3): cmd.append({'n': n, 'v': [LIT('cl%s' % n)] + ([REF('M')] if g.ch(0.3) else [])})
    g.frozen = {x['n'] for x in cmd} | ({x['n'] for x in env} if E else set())
    g.envn = {x['n'] for x in env} | {x['n'] for x in cmd}
    dirs = ['', 'd1', 'd2', 'd1/sub', 'inc 1', 'inc2']
    g.incs = []
    files = {}
    top = 'Makefile'
    if prof == 'include' or g.ch(0.25):
        names = ['x.mak', 'y.mak', 'z.mak', 'sub/x.mak', 'd2/y.mak']
        g.incs = rng.sample(names, rng.choice([2, 3, 4]))
        for n in set(g.incs):
            for d in rng.sample(dirs, rng.choice([1, 1, 2, 3])):
                p = (d + '/' if d else '') + n
                if g.ch(0.9) and p not in files: files[p] = None
        if g.ch(0.4): top = rng.choice(['d1/top.mak', 'd2/top.mak', 'd1/sub/top.mak'])
    chain = []
    if prof == 'include' and g.ch(0.4):
        # files that include each other along a path of directories; the innermost includes one that lies anywhere on the way
        at = '/'.join(top.split('/')[:-1])
        place = [at]
        for i in range(rng.choice([2, 3, 4])):
            sub = rng.choice(['q', 'r', 'q/r'])
            at = (at + '/' if at else '') + sub
            place.append(at)
            chain.append((at + '/l%d.mak' % i, sub + '/l%d.mak' % i))
        for d in rng.sample(place + ['', 'inc 1', 'inc2'], rng.choice([1, 1, 1, 2])): files[(d + '/' if d else '') + 'leaf.mak'] = None
        dirs = dirs + place
    order = sorted(files); rng.shuffle(order)
    allinc = list(g.incs)
    for i, p in enumerate(order):
        # included files may include each other; mostly names further down to keep cycles rare
        base = p.split('/')[-1]
        g.incs = allinc if g.ch(0.15) else [n for n in allinc if n.split('/')[-1] > base]
        files[p] = [{'k': 'msg', 'v': [LIT('I%d' % g.uid())]}] + g.block(rng.choice([1, 2, 4]), 1)
        if g.ch(0.03): files[p].append(rng.choice([{'k': 'endif'}, {'k': 'if', 'c': {'c': 'num', 'v': 1}}]))
    g.incs = allinc
    inc = rng.choice([[], [], ['inc 1'], ['inc2', 'inc 1'], ['nodir', 'inc2'], ['inc 1', 'd2']])
    body = [{'k': 'rule', 'v': [LIT('x base')]},
            {'k': 'def', 'n': 'NAMER', 'v': [LIT(g.name())]}]
    if inc:
        body.append({'k': 'def', 'n': 'INCD', 'v': [LIT(inc[-1])]})
        body.append({'k': 'def', 'n': 'INCLUDE', 'v': [LIT(';'.join(inc))] if g.ch(0.7) else [LIT(';'.join(inc[:-1]) + ';'), REF('INCD')]})
    if allinc: body.append({'k': 'def', 'n': 'INCNAME', 'v': [LIT(rng.choice(allinc))]})
    b = g.block(rng.choice([3, 6, 10, 16]), 3)
    if allinc:
        for _ in range(rng.choice([1, 2, 3])):
            # not within a recipe: any place whose next line is not a command of one
            at = [i for i in range(len(b) + 1) if i == len(b) or b[i]['k'] in ('def', 'undef', 'rule')]
            b.insert(rng.choice(at), g.include())
    for i, (p, n) in enumerate(chain):
        nxt = chain[i + 1][1] if i + 1 < len(chain) else 'leaf.mak'
        files[p] = [{'k': 'msg', 'v': [LIT('L%d' % g.uid())]}, {'k': 'include', 'form': rng.choice(['plain', 'plain', 'angle']), 'v': [LIT(nxt)]}, {'k': 'msg', 'v': [LIT('L%d' % g.uid())]}]
        if g.ch(0.15): files[p].append({'k': 'include', 'form': 'plain', 'v': [LIT('leaf.mak')]})
    if chain: body.append({'k': 'include', 'form': rng.choice(['plain', 'angle']), 'v': [LIT(chain[0][1])]})
    body += b
    if rng.random() < 0.4: body += [{'k': 'def', 'n': 'CYC', 'v': [LIT('y'), REF('CYC2')]}, {'k': 'def', 'n': 'CYC2', 'v': [REF('CYC')]}]
    else: body.append({'k': 'def', 'n': 'CYC', 'v': [LIT('none')]})
    if g.ch(0.08):
        k = rng.choice(['endif', 'else', 'if', 'cut', 'elseif'])
        i = rng.randrange(2, len(body) + 1)
        if k == 'cut':
            c = [j for j, l in enumerate(body) if l['k'] == 'endif']
            if c: del body[rng.choice(c)]
        elif k in ('if', 'elseif'): body.insert(i if k == 'if' else len(body), {'k': k, 'c': {'c': 'num', 'v': rng.randint(0, 1)}})
        elif k == 'else': body.append({'k': 'else'})
        else: body.insert(i, {'k': 'endif'})
    body.append({'k': 'rule', 'v': [LIT('x last ')] + [x for n in rng.sample(NAMES, 5) for x in (REF(n), LIT('.'))]})
    files[top] = body
    out = {}
    for p, ls in files.items():
        lines = []
        for l in ls:
            t = render(l, rng)
            if g.ch(0.05) and l['k'] in ('def', 'msg', 'rule', 'undef'): t = '# a comment $(\n' + t
            lines.append(t)
        nl = '\r\n' if g.ch(0.3) else '\n'
        s = nl.join('\n'.join(lines).split('\n')) + (nl if g.ch(0.9) else '')
        r = rng.random()
        out[p] = b'\xef\xbb\xbf' + s.encode() if r < 0.1 else b'\xff\xfe' + s.encode('utf-16-le') if r < 0.15 else s
    args = ['/NOLOGO', '/S'] + (['/E'] if E else []) + (['/R'] if R else []) + ([] if top == 'Makefile' else ['/F', top])
    args += ['%s=%s' % (x['n'], ptext(x['v'])) for x in cmd]
    if g.ch(0.5): args.append('all')
    for d in dirs:
        if d: out.setdefault(d + '/.keep', '')
    return {'in': {'files': {p: {'dir': '/'.join(p.split('/')[:-1]), 'lines': strip(ls)} for p, ls in files.items()}, 'top': top,
                   'cmdline': cmd, 'env': env, 'predef': [{'n': n, 'v': [LIT(v)]} for n, v in PREDEF], 'own': [{'n': n, 'v': [LIT(v)]} for n, v in OWN], 'E': E, 'R': R},
            'files': out, 'args': args, 'env': {x['n']: ptext(x['v']) for x in env}}

def strip(ls):
    return [{k: v for k, v in l.items() if k != 'text'} for l in ls]

def obs(case, r):
    cmds = [e['cmd'] for e in r.events if e['e'] == 'spawn']
    if r.rc == 0: how = 'ok'
    elif 0 < r.rc < 90 and r.err and not cmds: how = 'err'
    else: how = 'rc=%s cmds=%s' % (r.rc, cmds)
    if case.get('dep'):
        # the blocks are named in the order of their numbers
        key = lambda c: int(re.match(r'x b(\d+)', c).group(1)) if re.match(r'x b\d', c) else 1 << 20
        cmds.sort(key=key)
    lines = r.out.split('\n')
    if lines and lines[-1] == '': lines.pop()
    return {'how': how, 'out': [own(x.rstrip('\r')) for x in lines], 'cmds': [own(c.rstrip()) for c in cmds]}
