"""Cases of Wellformed.tla: makefiles with and without a fault, anywhere."""
TAB = ['AA = 1', 'BB=x y', '.PRECIOUS : foo.q', '.SUFFIXES : .q1 .q2', '.q1.q2 :\n\tx never', '{sub}.q1.q2:\n\tx never\n\tx never2', 'CC = $(AA) $(NONE)', '.SILENT :']
THROUGH = ['# comment', '!MESSAGE hello', '!UNDEF ZZ', '# no : fault ! here', '!IFDEF NOPE\nno fault\n!ENDIF', '!IF 0\n!FOO\n\tx stray\n= b\n!IF x +\n!ENDIF\n!ENDIF', '!IF 1\n!ELSE\nno fault\n!ENDIF',
           '!IFDEF AA\n!ELSEIF 0\n!INCLUDE nofile\n!ENDIF', '!IF 1\n!ELSEIF x y\n!ERROR no\n!ENDIF']
BAD = ['no colon here', '= b', '!FOO', '!FOO bar', '!ENDIFX', '$(B : ccc', 'AA', 'aa bb', '.foo', '.SUFFIXES', '.SUFFIXES .a .b', '.IGNORE', '.SILENT', '.PRECIOUS foo', 'a$(b:c) : d', '!MESSAGE $(X', '%|', 'bb ; x k',
       '.c.obj', '{x}.c{y}.obj x', '$(A)=b', 'a b=c', '=x', '!INCLUDE "nofile"', '!INCLUDE <nofile>', '!INCLUDE', '!INCLUDE sub', '!include nofile.mk', '"abc', 'x.y.z', 'gg: $(A', 'gg $(A', '!INCLUDE $(NOPE)', '"aa bb"', '{x}.c{y}.obj',
       '!MESSAGEx', '!ERRORS', 'AB $(N)', '!INCLUDE dummy.mk extra', '! FOO', '!  foo bar', '$(', '$(A', 'aa $(B:c', 'MM + = 1', 'M-M = 1', '1 2 = 3']
BADCMD = ['\tx $(A', '\tx k\n\tx $(A b', ' x $(A:b', '\tx a $(A:b=c']
UNENDED = ['\tx <<', '\tx <<foo.txt\ntext', '\tx <<\ntext\ntext\n', '\tx << <<\ntext\n<<\nmore', '\tx <<KEEP\ntext\n <<']
IFBAD = ['!IF', '!IF 1 +', '!IF x', '!IF (1', '!IF 1 1', '!IF "a', '!IF 1 ==', '!IF 1/0', '!IF )', '!IF $(NOPE)', '!IF 2 % 0', '!IF !']
ELIFBAD = ['!ELSEIF x', '!ELSE IF 1 +', '!ELSEIF (', '!ELSE IF "a']

def gen(rng, prof):
    nt = rng.choice([2, 3, 4, 5, 7, 9])
    base = ['all', 'bb', 'cc.q', 'sub/dd', 'ee', 'f f', 'GG', 'hh', 'sub\\kk', 'll.m.q']
    rng.shuffle(base)
    tg = base[:nt]
    long = {t for t in tg if rng.random() < 0.12 and ' ' not in t}
    files = ['f1', 'f2.h', 'sub/f3', 'F4', 'f 5']
    uid = [0]
    def cid():
        uid[0] += 1
        return 'k%d' % uid[0]
    def spell(n):
        if rng.random() < 0.15: n = n.swapcase()
        if rng.random() < 0.3: n = n.replace('/', '\\') if '/' in n else n.replace('\\', '/')
        return n
    def tspell(n): return ('$(MAKEDIR)\\' if n in long else '') + spell(n)
    # well formed: dependents have a lower number
    def dep(i): return spell(tg[rng.randrange(i)]) if i and rng.random() < 0.75 else spell(rng.choice(files))
    def block(ts, ty, deps, n): return {'k': 'block', 'names': ts, 'ty': ty, 'deps': deps, 'cmds': [cid() for _ in range(n)]}
    items, ty = [], {}
    order = list(range(nt)); rng.shuffle(order)
    for i in order:
        ty[i] = rng.choice([':', ':', '::'])
        names = [tspell(tg[i])]
        n = rng.choice([0, 1, 1, 2])
        items.append(block(names, ty[i], [dep(i) for _ in range(rng.choice([0, 1, 2, 3]))], n))
        if ty[i] == '::' and rng.random() < 0.5: items.append(block([tspell(tg[i])], '::', [dep(i) for _ in range(rng.choice([0, 1, 2]))], 1))
        elif rng.random() < 0.3:
            js = [j for j in range(nt) if ty.get(j) == ty[i]]
            js = rng.sample(js, min(len(js), rng.choice([1, 2])))
            items.insert(rng.randrange(len(items) + 1), block([tspell(tg[j]) for j in js], ty[i], [dep(min(js)) for _ in range(rng.choice([1, 2]))], 0))
    # other lines between them; a region may be off
    def filler():
        x = rng.random()
        if x < 0.4: return [{'k': 'rule' if '\n' in t else 'close' if t[0] == '.' else 'through', 's': t} for t in [rng.choice(TAB)]]
        if x < 0.75: return [{'k': 'through', 's': rng.choice(THROUGH)}]
        return [{'k': 'blank', 's': ''}]
    def cond(sub, lv=0):
        v = [rng.choice([0, 1]) for _ in range(3)]
        a = [{'k': 'if', 'v': v[0], 's': rng.choice(['!IF %d', '!if %d', '! IF (%d)', '!IF 1 == 1 && %d', '!IF %d # comment']) % v[0]}]
        offs = lambda: [rng.choice([{'k': 'bad', 's': rng.choice(BAD)}, {'k': 'through', 's': '!MESSAGE off'}, {'k': 'error', 's': '!ERROR off'}, {'k': 'include', 'f': 'nofile', 's': '!INCLUDE nofile'}])] if rng.random() < 0.6 else []
        out = a + (sub if v[0] else offs())
        took = v[0]
        if rng.random() < 0.4:
            out.append({'k': 'elseif', 'v': v[1], 's': rng.choice(['!ELSEIF %d', '!ELSE IF %d', '!elseif %d']) % v[1]})
            out += sub if v[1] and not took else offs()
            took = took or v[1]
        if not took or rng.random() < 0.4:
            out.append({'k': 'else', 's': rng.choice(['!ELSE', '!else', '! ELSE'])})
            out += sub if not took else offs()
        return out + [{'k': 'endif', 's': rng.choice(['!ENDIF', '!endif', '! ENDIF'])}]
    text = {}
    def lay(bs, depth):
        out = []
        k = 0
        while k < len(bs):
            while rng.random() < 0.3: out += filler()
            m = rng.choice([1, 1, 2, 3])
            part = bs[k:k + m]; k += m
            x = rng.random()
            if depth < 3 and x < 0.15: out += cond(lay(part, depth + 1))
            elif depth < 3 and x < 0.25:
                f = 'i%d.mk' % (len(text) + 1)
                text[f] = None
                text[f] = lay(part, depth + 1)
                out += [{'k': 'include', 'f': f, 's': rng.choice(['!INCLUDE %s', '!include "%s"', '!INCLUDE <%s>', '! INCLUDE %s']) % f}, {'k': 'close', 's': '.PRECIOUS : zz'}]
            else:
                out += part
        while rng.random() < 0.3: out += filler()
        return out
    text['Makefile'] = lay(items, 0)
    text['dummy.mk'] = []
    goals = [] if rng.random() < 0.4 else [spell(t) for t in rng.sample(tg, rng.randint(1, min(3, nt))) if t not in long]
    absent = False
    # what may go wrong
    def spots():
        """places where an item may be inserted"""
        f = rng.choice([n for n in text if n != 'dummy.mk'])
        return text[f], rng.randrange(len(text[f]) + 1)
    def blocks(): return [b for its in text.values() for b in its if b['k'] == 'block']
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
        its, p = spots()
        x = rng.random()
        if prof == 'graph': x = 0.55 + x * 0.45
        if x < 0.22: its.insert(p, {'k': 'bad', 's': rng.choice(BAD)})
        elif x < 0.27: its.insert(p, {'k': 'error', 's': rng.choice(['!ERROR', '!ERROR oops', '!error $(NOPE)'])})
        elif x < 0.30: its.insert(p, {'k': 'include', 'f': 'nofile', 's': '!INCLUDE nofile'})
        elif x < 0.34:                                            # a stray command or a further one
            its.insert(p, {'k': 'cmd', 'id': cid()})
        elif x < 0.38:
            bs = [i for i in range(len(its)) if its[i]['k'] == 'block']
            if bs: its.insert(rng.choice(bs) + 1, {'k': 'badcmd', 's': rng.choice(BADCMD)})
        elif x < 0.41:
            bs = [i for i in range(len(its)) if its[i]['k'] == 'block']
            if bs:
                i = rng.choice(bs)
                its.insert(i + 1, {'k': 'badcmd', 's': rng.choice(UNENDED)})
        elif x < 0.46: its[p:p] = [{'k': 'if', 'v': 2, 's': rng.choice(IFBAD)}, {'k': 'endif', 's': '!ENDIF'}]
        elif x < 0.48: its.insert(p, rng.choice([{'k': 'if', 'v': v, 's': '!IF %d' % v} for v in (0, 1)] + [{'k': 'if', 'v': 0, 's': '!IFDEF NOPE'}, {'k': 'if', 'v': 1, 's': '!IFNDEF NOPE'}]))
        elif x < 0.50: its.insert(p, rng.choice([{'k': 'else', 's': '!ELSE'}, {'k': 'elseif', 'v': 1, 's': '!ELSEIF 1'}, {'k': 'elseif', 'v': 2, 's': rng.choice(ELIFBAD)}]))
        elif x < 0.52: its.insert(p, {'k': 'endif', 's': '!ENDIF'})
        elif x < 0.55:
            c = [i for i in range(len(its)) if its[i]['k'] in ('if', 'endif', 'else', 'elseif')]
            if c: its.pop(rng.choice(c))
        elif x < 0.70:                                            # an edge that may close a cycle
            bs = blocks()
            if not bs: continue
            if rng.random() < 0.5:
                # from a dependent of a dependent ... back
                b = rng.choice(bs)
                names = {n.split('$(MAKEDIR)\\')[-1].lower().replace('/', '\\') for n in b['names']}
                cur = b
                for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
                    d = [q for q in bs if {n.split('$(MAKEDIR)\\')[-1].lower().replace('/', '\\') for n in q['names']} & {n.lower().replace('/', '\\') for n in cur['deps']}]
                    if not d: break
                    cur = rng.choice(d)
                nm = rng.choice(sorted(b['names'])).split('$(MAKEDIR)\\')[-1]
                cur['deps'].insert(rng.randrange(len(cur['deps']) + 1), spell(nm))
            else:
                b = rng.choice(bs)
                b['deps'].insert(rng.randrange(len(b['deps']) + 1), spell(rng.choice(tg)))
        elif x < 0.80:
            bs = blocks()
            if bs:
                b = rng.choice(bs)
                b['deps'].insert(rng.randrange(len(b['deps']) + 1), rng.choice(['nofile', 'sub/nofile', 'nodir/f1', 'no file', 'f1.q.h', 'f2']))
        elif x < 0.88:                                            # the other kind of colon
            i = rng.randrange(nt)
            j = rng.randrange(nt)
            t = rng.choice([':', '::'])
            its.insert(p, block([tspell(tg[i])] + ([tspell(tg[j])] if rng.random() < 0.4 else []), t, [dep(min(i, j)) for _ in range(rng.choice([0, 1]))], 0))
        elif x < 0.93: goals.insert(rng.randrange(len(goals) + 1), rng.choice(['nogoal', 'sub/nogoal', 'nogoal.q']))
        elif x < 0.95: absent = True
        elif x < 0.97:
            bs = blocks()
            if bs: rng.choice(bs)['deps'] += [spell(rng.choice(files)), 'sub']
    # a command that follows a !INCLUDE, or whatever precedes it there: unspecified
    for n in text:
        its = text[n]
        i = 0
        while i < len(its):
            if its[i]['k'] == 'cmd' and (i == 0 and n != 'Makefile' or i and its[i - 1]['k'] == 'include'): its.pop(i)
            elif its[i]['k'] == 'badcmd' and (i == 0 or its[i - 1]['k'] == 'include'): its.pop(i)
            elif its[i]['k'] == 'badcmd' and '<<' in its[i]['s'] and any(b.get('s', '').find('<<') >= 0 for b in its[i + 1:]): its.pop(i)
            else: i += 1
        # a fault inside an open list of continuation lines would be something else
    mac = {}
    def q(n): return '"%s"' % n if ' ' in n or (rng.random() < 0.1 and '$' not in n) else n
    def render(its):
        ls = []
        for it in its:
            if it['k'] == 'block':
                w = [q(d) for d in it['deps']]
                if w and rng.random() < 0.1:
                    m = 'DM%d' % (len(mac) + 1)
                    mac[m] = ' '.join(w)
                    w = ['$(%s)' % m]
                    ls.append('%s = %s' % (m, mac[m]))
                glue = ' ' if rng.random() < 0.8 else ' \\\n   '
                l = ' '.join(q(n) for n in it['names']) + ' ' + it['ty'] + ''.join(glue + x for x in w)
                c = list(it['cmds'])
                if len(c) > 1 and rng.random() < 0.2: l += ' ; x ' + c.pop(0)
                ls.append(l)
                ls += ['\tx ' + x for x in c]
            elif it['k'] == 'cmd': ls.append('\tx ' + it['id'])
            else: ls.append(it['s'])
        return ls
    fs = {f: '' for f in files}
    for n in text:
        ls = render(text[n])
        fs[n] = '\n'.join(ls) + ('\n' if ls and rng.random() < 0.9 else '')
    lst = [f.replace('\\', '/') for f in fs]
    mk = rng.random()
    args = ['/NOLOGO', '/J%d' % rng.choice([1, 1, 2, 4])]
    for o in ['/A', '/K', '/S', '/I']:
        if rng.random() < 0.25: args.append(o)
    dry = rng.random() < 0.12
    if dry: args.append('/N')
    if absent: args += ['/F', rng.choice(['nofile.mk', 'sub', 'sub/nofile'])]
    elif rng.random() < 0.15:
        fs['other.mk'] = fs.pop('Makefile')
        lst = [f.replace('\\', '/') for f in fs]
        args += ['/F', 'other.mk']
    goals = [g.replace('/', '\\') for g in goals]
    rng.shuffle(args) if '/F' not in args else None
    inp = {'text': {n: [{k: v for k, v in it.items() if k != 's'} for it in text[n]] for n in text}, 'goals': goals, 'files': sorted(lst) + ['sub', 'tmp'], 'dry': dry, 'absent': absent}
    return {'in': inp, 'files': fs, 'args': args + goals, 'scenario': {'mode': rng.choice(['auto', 'lazy', 'manual']), 'seed': rng.randrange(1 << 30)}}

def obs(case, r):
    end = [e for e in r.events if e['e'] == 'end']
    starts = [e.get('id') or '?' + e['cmd'] for e in r.events if e['e'] == 'spawn']
    return {'rc': r.rc, 'how': end[-1]['how'] if end else 'none', 'msg': bool(r.err.strip()), 'starts': starts}
