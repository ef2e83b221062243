"""Which function decides which property."""
import funcprops
PLANS = {}
for p in ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C16', 'C17']:
    PLANS[p] = ('execprops', p, 'model_checking')
NOTES = {}
for p, f in funcprops.FUNCS.items():
    PLANS[p] = ('funcprops', p, 'exploration')
    NOTES[p] = ('TLA+/TLC: conformance of real runs of jom with the specification spec/%s.tla' % f[1],
                'Random sampling (%s), each case executed by the real jom on a simulated operating system and judged by TLC against the specification. Cases outside the samples are not covered.' % f[4])
NA = {}
