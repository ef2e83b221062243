"""The properties of the scheduler, decided with Scheduler.tla (design) and Exec.tla (recorded runs)."""
import execcheck as X, engine as E, design

ALWAYS = {'hang', 'crash', 'unmapped'}
BASE = {}
WIDE = {'J': (2, 4), 'edge': 0.3, 'n': (4, 7)}
LARGE = {'J': (2, 6), 'edge': 0.25, 'n': (7, 12), 'files': (0, 3), '_limit': 6}
SUB = {'sub': 1, 'J': (2, 4), 'own': 0.25}
GOALS = {'goals': 3, 'side': 0.5, 'edge': 0.3}
SYNC = {'sync': 1, 'edge': 0.7, 'J': (2, 4), 'n': (4, 7)}
SYNCINF = dict(SYNC, files=(2, 4), infer=0.9, edge=0.3, n=(3, 6))
INFER = {'files': (2, 4), 'infer': 0.9, 'edge': 0.45, 'stale': 0.3, 'phony': 0.1, 'fail': 0.03, 'nocmd': 0.3}
DUP = {'dup': 0.6, 'J': (1, 3)}
FAILS = {'crash': 0.05, 'fail': 0.5, 'J': (2, 4), 'K': 0, 'ncmds': (1, 3), 'edge': 0.3, 'n': (3, 7), 'nocmd': 0.1}
KEEP = {'crash': 0.03, 'K': 1, 'fail': 0.35, 'J': (1, 4), 'edge': 0.35, 'n': (3, 7)}
KGOALS = {'crash': 0.03, 'K': 1, 'fail': 0.3, 'goals': 3, 'side': 0.3, 'edge': 0.35}
TOL = {'tol': 0.6, 'fail': 0.3, 'crash': 0.15, 'ncmds': (1, 4)}
IGN = {'ignore': 1, 'tol': 0.3, 'fail': 0.25, 'crash': 0.05}
STALE = {'stale': 0.3, 'A': 0.05, 'phony': 0.3, 'files': (0, 3), 'fail': 0.03, 'edge': 0.5, 'ext': 0}
ALL = {'A': 1, 'phony': 0.1, 'stale': 0.2}
NOTPAR = {'_post': 'notparallel'}
DEFJ = {'_post': 'default', 'edge': 0.25, 'n': (4, 7)}
HAND = {'_base': {'logenv': ['_JOMSRVKEY_', '_JOMJOBCOUNT_']}, 'sub': 0.4, 'J': (1, 4), 'own': 0.5}
CHAIN = {'edge': 0.9, 'n': (4, 8), 'J': (1, 4)}
CMDS = {'ncmds': (2, 6), 'n': (2, 4), 'J': (2, 4), 'edge': 0.3}
FAILG = {'crash': 0.05, 'goals': 3, 'fail': 0.4, 'K': 0, 'edge': 0.3}

LADDER = {'_post': 'ladder', 'J': (1, 4), '_limit': 1, '_modes': ('auto',)}

def exec_check(ck, labels, profiles, which=('all',), consts=None, defects=(), fair=False):
    design.scheduler(ck, which, consts if ck.quick() else dict(consts or {}, N=3, Js='{2, 3}', MaxCmds=2, Tokens=2, MaxExt=1),
                     fair=fair or not ck.quick(), defects=defects if ck.quick() else design.DEFECTS)
    X.EXE = E.build_sim()
    q = ck.quick()
    rounds = [(14 if q else 100, 14 if q else 40)] * (1 if q else 4)
    base = ck.seed
    for i, (budget, limit) in enumerate(rounds):
        ck.seed = base + 7919 * i
        cfgs, tr = X.collect(ck, profiles, budget, limit, max_traces=3500 if q else 30000, max_events=120000 if q else 900000)
        res = X.validate(ck, cfgs, tr, labels)
        X.judge(ck, cfgs, tr, res, set(labels) | ALWAYS)
        if tr:
            k = len(tr) // 2
            ck.sample({'makefile': X.G.makefile(cfgs[tr[k][0]]), 'args': X.G.args(cfgs[tr[k][0]]), 'schedule': tr[k][2], 'events': len(tr[k][1])})
    ck.seed = base

def C01(ck): exec_check(ck, {'dep'}, [BASE, WIDE, CHAIN, INFER, LARGE, SUB, KEEP, GOALS, STALE], defects=['EarlyLeaf'])
def C02(ck): exec_check(ck, {'twice', 'sequence', 'stuck', 'unfinished', 'incomplete'}, [CMDS, WIDE, BASE, TOL, FAILS, KEEP, GOALS, KGOALS, LARGE], which=('tolerant',), consts={'MaxCmds': 2})
def C03(ck): exec_check(ck, {'incomplete', 'unfinished', 'kincomplete'}, [STALE, INFER, DUP, BASE, CHAIN, LARGE, GOALS, SUB, TOL], defects=['StaleStamp'])
def C04(ck): exec_check(ck, {'fresh', 'unreachable', 'incomplete'}, [STALE, BASE, INFER, ALL, LARGE, GOALS, CHAIN])
def C05(ck):
    design.run(ck, 'JobServer', 'JobServer')
    exec_check(ck, {'limit', 'untokened', 'tokencount', 'handoff'}, [WIDE, SUB, NOTPAR, DEFJ, HAND, FAILS, LARGE, GOALS], defects=['NoRequest'])
def C06(ck): exec_check(ck, {'tokens', 'pending', 'overrelease', 'hoard', 'doublerequest', 'tokencount'}, [FAILS, SUB, WIDE, KEEP, GOALS, FAILG, dict(FAILS, sub=1), LARGE], consts={'Tokens': 1, 'MaxExt': 1}, defects=['DoubleRelease', 'HoldToken'])
def C07(ck): exec_check(ck, {'stuck', 'capacity', 'unfinished', 'incomplete'}, [WIDE, DUP, SUB, BASE, DEFJ, GOALS, KEEP, FAILS, LARGE, NOTPAR, LADDER], fair=True, defects=['LostKick'])
def C08(ck): exec_check(ck, {'afterabort', 'orphan', 'failstatus', 'afterfail', 'sequence'}, [FAILS, dict(FAILS, sub=1), FAILG, BASE, dict(FAILS, n=(5, 9), J=(3, 5))], consts={'MaxCmds': 2, 'Ks': '{FALSE}', 'Stamps': '{0}'}, defects=['NoDrain'])
def C09(ck): exec_check(ck, {'afterfail', 'kincomplete', 'failstatus', 'status', 'incomplete'}, [KEEP, KGOALS, dict(KEEP, sub=1), dict(KEEP, n=(6, 10), _limit=6), dict(KEEP, edge=0.6), LADDER], consts={'Ks': '{TRUE}'})
def C10(ck): exec_check(ck, {'afterfail', 'failstatus', 'status', 'incomplete', 'kincomplete', 'sequence', 'stuck', 'unfinished', 'afterabort'}, [TOL, IGN, dict(TOL, K=1), dict(IGN, goals=2)], which=('tolerant',))
def C16(ck): exec_check(ck, {'fresh', 'incomplete', 'twice', 'dep', 'unreachable', 'kincomplete', 'afterabort', 'failstatus', 'unfinished'}, [GOALS, KGOALS, FAILG, dict(GOALS, side=0.8, n=(4, 8), stale=0.2, fail=0)], which=('goals',))
def C17(ck): exec_check(ck, {'sync'}, [SYNC, dict(SYNC, wide=True, n=(5, 8), fail=0), dict(SYNC, K=1), dict(SYNC, sub=1), dict(SYNC, goals=2), SYNCINF], which=('sync',))
