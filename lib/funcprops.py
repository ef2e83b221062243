"""Properties about what a makefile, an expression, an option ... means: real runs compared case by case with a TLA+ operator or a
TLA+ state machine (one module of spec/ each)."""
import funcs

#        case module, TLA+ module, profiles, state machine?, what is generated
FUNCS = {
 'C11': ('c_output', 'Output', ['plain', 'big', 'packets', 'preempt'], True, 'random parallel recipes whose commands print up to 1100 pieces, with every order of completion packets and death notifications'),
 'C12': ('c_output', 'Output', ['preempt', 'plain', 'packets'], True, 'random parallel recipes whose commands print; output of running commands arrives between any two writes of jom'),
 'C13': ('c_dry', 'DryRun', ['plain'], True, 'random makefiles run with /N, without it, and with /DUMPGRAPH or an option that only asks for information'),
 'C14': ('c_recipe', 'Recipe', ['cd'], True, 'random recipes of cd, set and commands in up to four targets built by up to four jobs'),
 'C25': ('c_recipe', 'Recipe', ['env'], True, 'random environments, command line macros and redefinitions in the makefile; the whole environment of every command is compared'),
 'C15': ('c_inline', 'Inline', ['plain', 'batch', 'plain'], True, 'random recipes with up to nine inline files each, of own recipes, plain and batch inference rules, in parallel, with failures and Ctrl-C'),
 'C18': ('c_infer', 'Infer', ['rules', 'rules', 'batch'], False, 'random rules over suffixes and directories spelled in several ways, .SUFFIXES directives, explicit and implicit targets, files and time stamps'),
 'C19': ('c_infer', 'Infer', ['batch', 'keep', 'rules'], False, 'random sets of targets of batch rules, with up-to-date members, explicit dependents, failing commands, /K, /Y, /A and one to seven jobs, on random schedules'),
 'C20': ('c_pre', 'Preprocess', ['cond'], True, 'random makefiles of conditionals nested to depth 4, with skipped regions holding arbitrary text'),
 'C21': ('c_pre', 'Preprocess', ['include'], True, 'random trees of included files of the same name in several directories'),
 'C22': ('c_expr', 'Expr', ['plain', 'mutate'], False, 'random expressions of up to 40 tokens, well formed and damaged, and deeply nested ones'),
 'C23': ('c_macro', 'Macro', ['plain', 'broken', 'cycle'], False, 'random macro definitions and texts with nested references, substitutions, recursion and damaged references'),
 'C24': ('c_pre', 'Preprocess', ['macro', 'dep'], True, 'random definitions and removals of macros that also come from the command line, the environment and the predefined ones'),
 'C26': ('c_make', 'Makefile', ['lines'], False, 'random makefiles whose logical lines are laid out over physical lines with comments, continuations, quoting, long words, byte order marks and both line ends'),
 'C27': ('c_make', 'Makefile', ['blocks'], False, 'random sequences of description blocks over shared targets with one or two colons, quoted names, patterns, macros and commands after a semicolon'),
 'C28': ('c_fmac', 'FileMacros', ['names'], False, 'random names with directories, dots and blanks, time stamps and commands full of file name macros with modifiers and substitutions, also in dependents and inference rules'),
 'C30': ('c_options', 'Options', ['base', 'wild'], False, 'random option words, macro definitions and goals on the command line, in command files with any quoting and line structure, and in JOMFLAGS or MAKEFLAGS, valid or not, for three makefiles'),
 'C29': ('c_well', 'Wellformed', ['text', 'graph'], True, 'random makefiles of blocks, conditionals and included files with faults of some 80 kinds put anywhere in them, cycles through any spelling of names, missing files and goals'),
}

# rules of the specification that belong to other properties are left out
LABELS = {'C18': ['crash', 'unexpected', 'undone', 'early', 'status', 'order'], 'C11': ['sequence', 'lost', 'junk', 'crash'], 'C12': ['mixed', 'interrupted', 'held', 'crash', 'junk']}

def run(prop):
    mod, spec, profiles, steps, rule = FUNCS[prop]
    def check(ck):
        funcs.check(ck, mod, spec, profiles, labels=LABELS.get(prop), steps=steps, rule=rule + '; every case is a run of the real jom judged by spec/%s.tla; equal cases count once' % spec)
    return check
for _p in FUNCS: globals()[_p] = run(_p)
