"""Properties decided by comparing what the real program does with a TLA+ operator, case by case.

A module gives gen(rng, profile) -> case (with case['in']: what the TLA+ operator gets, and case['run']: files, args,
scenario, env of a run of the program) and obs(case, result) -> observation.  TLC evaluates Judge(in, obs) in
spec/<module>.tla for every case and prints the rules that are broken."""
import json, random, re
import engine as E, simrun

EXE = None

def perform(m, case):
    """the run of a case; with case['also'] (more lists of arguments), the results of those runs are in .more"""
    def go(args): return simrun.run(EXE, case['files'], args, case.get('scenario'), case.get('env'), cwd=case.get('cwd'))
    r = go(case.get('args', ()))
    r.more = [go(a) for a in case.get('also', ())]
    return r

def _one(item):
    mod, seed, prof, k = item
    m = __import__(mod)
    out = []
    for j in range(k):
        rng = random.Random('%s/%d' % (seed, j))
        case = m.gen(rng, prof)
        r = perform(m, case)
        o = m.obs(case, r)
        out.append((json.dumps({'in': case['in'], 'obs': o}), seed, j, prof))
        if simrun.OVERDUE.value > 5: break
    return out

def run_case(mod, seed, j, prof):
    m = __import__(mod)
    rng = random.Random('%s/%d' % (seed, j))
    case = m.gen(rng, prof)
    r = perform(m, case)
    return case, r, m.obs(case, r)

def check(ck, mod, spec, profiles, labels=None, budget=(14, 100), cap=(12000, 150000), rule='', rounds=(1, 3), chunk=25, steps=False):
    """labels: the rules of spec/<spec>.tla that belong to the property (None: all)."""
    global EXE
    EXE = E.build_sim()
    q = ck.quick()
    if steps: cap = (cap[0] // 2, cap[1] // 2)
    for rnd in range(rounds[0 if q else 1]):
        rng = random.Random(ck.seed * 1000003 + 29 + rnd)
        def items():
            while True:
                for p in profiles: yield (mod, rng.randrange(1 << 48), p, chunk)
        cases, seen, n = [], set(), 0
        for out in E.campaign(_one, items(), budget[0 if q else 1]):
            n += len(out)
            for t, seed, j, prof in out:
                if t in seen or len(cases) >= cap[0 if q else 1]: continue
                seen.add(t); cases.append((t, seed, j, prof))
        ck.add('evaluations', n); ck.add('distinct_nontrivial', len(cases))
        ck.cov['rule'] = rule or 'random cases of spec/%s.tla; cases with the same input and observation count once' % spec
        verdict(ck, mod, spec, cases, labels, steps)

def broken(r):
    for mm in re.finditer(r'<<"@V", (\d+), (\{.*?\})>>', r.out, re.S):
        yield int(mm.group(1)) - 1, set(re.findall(r'"(\w+)"', mm.group(2)))

def report(ck, spec, case, res, o, mine):
    rep = {'files': case['files'], 'args': case.get('args'), 'env': case.get('env'), 'scenario': case.get('scenario'), 'in': case['in'], 'observed': o,
           'rules': sorted(mine), 'rc': res.rc, 'out': res.out[-2000:], 'err': res.err[-2000:]}
    ck.violation(E.sig_of([case['files'], case.get('args'), case.get('env')]), 'rule %s of %s.tla broken' % ('/'.join(sorted(mine)), spec), rep)

def verdict(ck, mod, spec, cases, labels, steps=False):
    """steps: the module walks through states of its own; TLC's deadlock check makes sure that every case is decided"""
    if not cases: raise E.Failure('no cases')
    data = {'cases': [json.loads(c[0]) for c in cases]}
    r = E.tlc(spec, 'Steps' if steps else 'Cases', data=data)
    if not r.ok or (r.distinct < 2 * len(cases) if steps else r.distinct != 2 * len(cases)): E.tlc_fail(r)
    ck.add('states', r.distinct); ck.add('transitions', r.states)
    other, nbad = {}, 0
    again = []
    for k, rules in broken(r):
        mine = rules if labels is None else rules & set(labels)
        if not mine:
            for x in rules: other[x] = other.get(x, 0) + 1
            continue
        t, seed, j, prof = cases[k]
        nbad += 1
        if nbad > 60 or simrun.OVERDUE.value > 12: continue
        case, res, o = run_case(mod, seed, j, prof)
        if json.loads(json.dumps(o)) == json.loads(t)['obs']: report(ck, spec, case, res, o, mine)
        else: again.append((case, res, o))            # threads: not exactly the same happened; does it deviate again?
    if again:
        r = E.tlc(spec, 'Steps' if steps else 'Cases', data={'cases': [{'in': c['in'], 'obs': json.loads(json.dumps(o))} for c, _, o in again]})
        if not r.ok: E.tlc_fail(r)
        bad = dict(broken(r))
        for k, (case, res, o) in enumerate(again):
            mine = bad.get(k, set()) if labels is None else bad.get(k, set()) & set(labels)
            if mine: report(ck, spec, case, res, o, mine)
            else: ck.notes.append('a deviation was not reproducible and is not counted')
    if nbad > 60: ck.notes.append('%d cases deviate' % nbad)
    if other: ck.notes.append('rules of other properties broken: %s' % other)
    c = data['cases'][len(cases) // 2]
    ck.sample(c)
