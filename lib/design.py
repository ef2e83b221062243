"""Exhaustive checks of the design models with TLC."""
import re
import engine as E

def run(check, module, cfg, consts=None, which=None, fair=False, expect_ok=True, workers=None, timeout=800):
    import os
    text = open(os.path.join(E.SPEC, cfg + '.cfg')).read()
    for k, v in (consts or {}).items(): text = re.sub(r'(?m)^  %s = .*' % k, '  %s = %s' % (k, v), text)
    if fair: text = text.replace('SPECIFICATION Spec', 'SPECIFICATION FairSpec').replace('VIEW view\n', '') + '\nPROPERTY Terminates\n'
    r = E.tlc(module, 'Generated', env={'WHICH': which or ''}, extra={'Generated.cfg': text}, workers=workers, timeout=timeout)
    name = module + (':' + which if which else '') + (':fair' if fair else '')
    if expect_ok and not r.ok:
        raise E.Failure('the design model %s breaks a rule:\n%s' % (name, r.out[-4000:]))
    if r.ok:
        check.add('states', r.distinct); check.add('transitions', r.states); check.add('design_states', r.distinct)
    return r

DEFECTS = {'DoubleRelease': {'MaxCmds': 1}, 'NoDrain': {'MaxCmds': 2}, 'EarlyLeaf': {}, 'LostKick': {}, 'NoRequest': {}, 'HoldToken': {}, 'StaleStamp': {}}

def scheduler(check, which=('all',), consts=None, fair=False, defects=()):
    for w in which: run(check, 'SchedulerMC', 'SchedulerMC', consts, w)
    if fair: run(check, 'SchedulerMC', 'SchedulerMC', consts, which[0], fair=True)
    for d in defects:
        r = run(check, 'SchedulerMC', 'SchedulerMC', dict(DEFECTS[d], Defect='"%s"' % d), 'all', expect_ok=False)
        if r.ok: raise E.Failure('the rules do not notice the defect %s of the design model' % d)
        check.add('design_defects_noticed')
