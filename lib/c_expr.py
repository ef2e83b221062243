"""Cases of Expr.tla."""
import random

PREC = {'||': 1, '&&': 2, '|': 3, '&': 4, '==': 5, '!=': 5, '<': 6, '>': 6, '<=': 6, '>=': 6, '<<': 7, '>>': 7, '+': 8, '-': 8, '*': 9, '/': 9, '%': 9}
OPS = list(PREC)
FACTS = [('DEFINED(FOO)', 1), ('DEFINED(NOPE)', 0), ('defined(EMPTY)', 1), ('DEFINED( FOO )', 1), ('DEFINED(foo)', 0), ('DEFINED("FOO")', 1), ('Defined (FOO)', 1),
         ('EXIST(here.txt)', 1), ('EXIST(missing.txt)', 0), ('exist("here.txt")', 1), ('EXIST ( sub\\deep.txt )', 1), ('EXIST("with space.txt")', 1), ('EXIST(with space.txt)', 1),
         ('EXIST(sub)', 1), ('DEFINED(GONE)', 0), ('DEFINED(ENVV)', 1), ('EXIST(a(b).txt)', 1), ('EXIST(a(c).txt)', 0),
         ('[x e1 rc=0]', 0), ('[x e2 rc=3]', 3), ('[x e3 rc=255]', 255), ('$(FIVE)', 5), ('$(ZERO)', 0), ('DEFINED($(FOO))', 0), ('EXIST($(HERE))', 1)]
STRS = ['', 'a', 'A', 'ab', 'a b', ' a', 'a"b', 'foo', '==', '1', '(', 'a)b', '&&', '0']

class Bad(Exception): pass

def quot(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q

def ap(o, a, b):
    if o in ('/', '%') and b == 0: raise ZeroDivisionError
    if o in ('<<', '>>') and not 0 <= b <= 10: raise Bad
    r = {'||': lambda: int(a != 0 or b != 0), '&&': lambda: int(a != 0 and b != 0), '|': lambda: a | b, '&': lambda: a & b, '==': lambda: int(a == b), '!=': lambda: int(a != b),
         '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '<<': lambda: a << b, '>>': lambda: a >> b,
         '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: quot(a, b), '%': lambda: a - b * quot(a, b)}[o]()
    if abs(r) > 1 << 24: raise Bad
    return r

def tree(rng, depth, ops):
    """(tokens, precedence of the outermost operator, value); the value only keeps the numbers in range"""
    r = rng.random()
    if depth == 0 or r < 0.2:
        r = rng.random()
        if r < 0.6:
            n = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 12, 100])
            return [('num', n)], 11, n
        if r < 0.85:
            s, v = rng.choice(FACTS)
            return [('fact', v, s)], 11, v
        a, b = rng.choice(STRS), rng.choice(STRS)
        if rng.random() < 0.4: b = a
        o = rng.choice(['==', '!='])
        return [('str', a), ('op', o), ('str', b)], 5.5, int((a == b) == (o == '=='))
    if r < 0.32:
        t, p, v = tree(rng, depth - 1, ops)
        o = rng.choice('-~!')
        if p < 11 or t[0] == ('op', '-') or (t[0][0] == 'op' and t[0][1] in '~!'): t = [('op', '(')] + t + [('op', ')')]
        return [('op', o)] + t, 10, {'-': -v, '~': ~v, '!': int(v == 0)}[o]
    if r < 0.42:
        t, p, v = tree(rng, depth - 1, ops)
        return [('op', '(')] + t + [('op', ')')], 11, v
    o = rng.choice(ops)
    a, pa, va = tree(rng, depth - 1, ops)
    b, pb, vb = tree(rng, depth - 1, ops)
    p = PREC[o]
    if pa < p or (pa == 5.5 and p == 5): a = [('op', '(')] + a + [('op', ')')]
    if pb <= p or pb == 5.5 and p == 5: b = [('op', '(')] + b + [('op', ')')]
    return a + [('op', o)] + b, p, ap(o, va, vb)

def nested_unary(ts):
    u = lambda t: t[0] == 'op' and t[1] in '-~!' and len(t[1]) == 1
    operand = lambda t: t[0] != 'op' or t[1] == ')'
    for i in range(len(ts) - 1):
        if u(ts[i]) and u(ts[i + 1]) and (i == 0 or not operand(ts[i - 1])): return True
    return False

def text(rng, ts):
    s = ''
    tight = rng.random() < 0.4
    for i, t in enumerate(ts):
        w = str(t[1]) if t[0] == 'num' else t[2] if t[0] == 'fact' else t[1] if t[0] in ('op', 'junk') else '"' + t[1].replace('"', '""') + '"'
        if s:
            prev = s[-1]
            need = (prev.isalnum() and (w[0].isalnum() or w[0] == '$')) or (prev in '<>=!&|' and w[0] in '<>=!&|') or (prev == '"' and w[0] == '"') or (i and ts[i - 1][0] == 'fact' and ts[i - 1][2][0] == '$' and (w[0].isalnum() or w[0] == '$'))
            if need or not tight or rng.random() < 0.2: s += rng.choice([' ', ' ', '  ', '\t'])
        s += w
    return s

def deep(rng):
    """an expression that needs a lot of the parser's stack, and sometimes lacks or has one parenthesis more"""
    n = rng.choice([20, 40, 60, 61, 62, 63, 64, 65, 100, 130, 200])
    ts = [('num', rng.choice([0, 1, 2]))]
    for _ in range(n):
        r = rng.random()
        if r < 0.5: ts = [('op', '(')] + ts + [('op', ')')]
        elif r < 0.6 and ts[0] == ('op', '('): ts = [('op', '!')] + ts
        elif r < 0.7: ts = [('num', rng.choice([0, 1])), ('op', rng.choice(['+', '==', '||', '&&', '-'])), ('op', '(')] + ts + [('op', ')')]
        elif r < 0.8: ts = [('op', '(')] + ts + [('op', ')'), ('op', rng.choice(['+', '!=', '&&', '-'])), ('num', rng.choice([0, 1]))]
        elif r < 0.85: ts = ts + [('op', rng.choice(['||', '&&'])), ('num', rng.choice([0, 1]))]
        else: ts = [('op', '(')] + ts + [('op', ')')]
    if rng.random() < 0.2:
        i = rng.choice([i for i, t in enumerate(ts) if t[1] in ('(', ')')])
        if rng.random() < 0.5: del ts[i]
        else: ts.insert(i, ts[i])
    return ts

def gen(rng, prof):
    while True:
        if rng.random() < 0.02:
            ts = deep(rng)
            if nested_unary(ts): continue
            break
        try:
            ops = ['||', '&&', '|', '&', '==', '!=', '<', '>', '<=', '>=', '+', '-'] if prof == 'mutate' or rng.random() < 0.4 else OPS
            try: ts, _, v = tree(rng, rng.choice([1, 2, 2, 3, 3]), ops)
            except ZeroDivisionError:
                if rng.random() < 0.7: continue
                a = [('num', rng.choice([0, 1, 7]))]
                b = rng.choice([[('num', 0)], [('op', '('), ('num', 2), ('op', '-'), ('num', 2), ('op', ')')], [('fact', 0, 'DEFINED(NOPE)')]])
                ts = a + [('op', rng.choice('/%'))] + b
                if rng.random() < 0.5: ts = [('num', rng.choice([0, 1])), ('op', rng.choice(['||', '&&', '+']))] + ts
        except Bad: continue
        junk = ''
        if prof == 'mutate':
            if any(t[0] == 'num' and t[1] > 20 or t[0] == 'fact' and t[1] > 20 for t in ts): continue
            for _ in range(rng.choice([1, 1, 2])):
                r = rng.random(); i = rng.randrange(len(ts) + 1)
                if r < 0.1: break
                if r < 0.4 and ts: del ts[rng.randrange(len(ts))]
                elif r < 0.75:
                    ts.insert(i, rng.choice([('op', rng.choice(ops + ['(', ')', '!', '~'])), ('num', rng.randint(0, 3)), ('str', rng.choice(STRS)), ('fact', 1, 'DEFINED(FOO)'),
                                             ('junk', rng.choice(['foo', '@', '=', 'x', '^', '\\', "'", ',', 'DEFINED', 'EXIST', 'DEFINED FOO']))]))
                elif len(ts) > 1:
                    j = rng.randrange(len(ts) - 1); ts[j], ts[j + 1] = ts[j + 1], ts[j]
            if not ts: ts = [('junk', 'FOO')]
            if rng.random() < 0.15: ts.append(('junk', rng.choice(['EXIST', 'DEFINED', 'EXIST(here.txt', 'DEFINED(FOO', '[x e9 rc=0', '"open', '"'])))
        if len(ts) > 40 or nested_unary(ts): continue
        # 'EXIST' or 'DEFINED' in front of a parenthesis would be a different token
        if any(ts[i][0] == 'junk' and i + 1 < len(ts) and ts[i + 1][1] in ('(', '=', '==') for i in range(len(ts))): continue
        if any(ts[i][0] == 'junk' and ts[i][1] == '=' and i and ts[i - 1][0] == 'op' for i in range(len(ts))): continue
        if any(t[0] == 'junk' and t[1] in '\\' for t in ts[-1:]): continue
        break
    e = text(rng, ts)
    r = rng.random()
    y, n = 'all:\n\tx yes\n', 'all:\n\tx no\n'
    d = rng.choice(['!IF ', '!if ', '! IF ', '!If\t'])
    if r < 0.6: body = d + e + '\n' + y + '!ELSE\n' + n + '!ENDIF\n'
    elif r < 0.8: body = '!IF 0\n' + 'all:\n\tx other\n' + rng.choice(['!ELSEIF ', '!ELSE IF ', '!else if ']) + e + '\n' + y + '!ELSE\n' + n + '!ENDIF\n'
    else: body = d + e + '\n' + 'R = yes\n' + '!ELSE\nR = no\n!ENDIF\nall:\n\tx $(R)\n'
    mk = 'FOO = nothere\nEMPTY =\nGONE = 1\n!UNDEF GONE\nFIVE = 5\nZERO = 0\nHERE = here.txt\n' + body
    conv = {'num': lambda t: {'k': 'num', 'v': t[1]}, 'str': lambda t: {'k': 'str', 'v': t[1]}, 'op': lambda t: {'k': 'op', 'v': t[1]},
            'fact': lambda t: {'k': 'fact', 'v': t[1]}, 'junk': lambda t: {'k': 'junk', 'v': 0}}
    return {'in': {'ts': [conv[t[0]](t) for t in ts]}, 'files': {'Makefile': mk, 'here.txt': '', 'sub/deep.txt': '', 'with space.txt': '', 'a(b).txt': ''},
            'args': ['/nologo'], 'env': {'ENVV': 'x'}}

def obs(case, r):
    ids = [e['id'] for e in r.events if e['e'] == 'spawn']
    if r.rc == 0 and ids in (['yes'], ['no']): how = ids[0]
    elif r.rc not in (0, 96, 97) and 0 < r.rc < 128 and not ids and r.err: how = 'err'
    else: how = 'rc=%s cmds=%s' % (r.rc, ids)
    return {'how': how}
