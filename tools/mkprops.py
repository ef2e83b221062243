#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/jomlib/" + f if '/' not in f else f for f in files.split()],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
PROC = "process creation and termination as seen by the operating system interface"
EXE = "targetexecutor.cpp dependencygraph.cpp commandexecutor.cpp"
TESTS = "The unit tests run a handful of fixed makefiles with real timing; "

p("C01", "No recipe starts before everything its target depends on is finished",
  "In every build, the first command of a target's recipe starts only after each of its dependents, direct or transitive, is settled: its recipe has run to a successful end, or it needed no recipe (it is up to date, or has no commands) and all its own dependents are settled. This holds whatever the number of jobs, the shape of the dependency graph, and the order in which running commands end.",
  "schedules programs configurations", "every dependency graph (including diamonds, shared leaves and command-less intermediate targets), every job limit, every order of command termination, every set of file time stamps",
  TESTS + "the order in which parallel commands end is never varied, so an edge that is ignored only in one interleaving is not seen.",
  EXE + " makefile.cpp", [("leaf removal and leaf selection in the build graph", "dependencygraph.cpp: removeLeaf, findAvailableTarget, internalBuild"), ("one queued scheduling step at a time", "targetexecutor.cpp: startProcesses, findNextTarget")],
  [PROC], [("build graph leaves", "targets whose remaining dependents are empty", "dependencygraph.h")])
p("C02", "A recipe is executed once, command by command, in order, without overlap",
  "Within the evaluation of one goal a target's recipe is executed at most once, however many targets depend on it and by whatever path. Its commands start in the order written, each only after the previous command of that recipe has ended, none is skipped or repeated, and no command of a recipe starts after one that failed.",
  "schedules programs", "every dependency graph, recipe length, job limit and termination order, including commands that fail at any position and commands that can be run only by the shell",
  TESTS + "a recipe started twice or two commands overlapping shows only under particular completion orders.",
  EXE + " jomprocess.cpp", [("executing state of graph nodes", "dependencygraph.cpp: findAvailableTarget"), ("command cursor", "commandexecutor.cpp: onProcessFinished, executeCurrentCommandLine")], [PROC])
p("C03", "Success means that everything out of date was rebuilt, completely",
  "When jom ends with status 0 without a dry run, every target reachable from a goal that was missing or older than one of its dependents has had all commands of its recipe executed successfully. Being rebuilt propagates: if a target's recipe ran and changed its file, every reachable target that depends on it and has commands is rebuilt as well.",
  "schedules programs configurations", "every dependency graph, all combinations of existing, missing, newer, equally old and older files, with and without recipes that update their file, all job limits and termination orders",
  TESTS + "only one or two time stamp constellations are used; nothing checks that a rebuild in one branch reaches all users of the file.",
  EXE + " fastfileinfo.cpp filetime.cpp", [("time stamp comparison", "dependencygraph.cpp: isTargetUpToDate"), ("file information cache and its invalidation", "fastfileinfo.cpp, targetexecutor.cpp: onChildFinished")], [PROC, "file time stamps"])
p("C04", "Only what is out of date is rebuilt, unless everything is asked for",
  "A recipe runs only if its target is reachable from a goal and its file is missing, or is older than one of its dependents, or a dependent is missing or is a target without a file that has commands; equal time stamps count as up to date. With the option to build all targets, every reachable recipe runs regardless of time stamps.",
  "programs configurations schedules", "every dependency graph, all time stamp constellations including equality, phony targets with and without commands, with and without /A, all schedules",
  TESTS + "unnecessary rebuilds are not failures for them, and the rebuild decision is tested for one or two constellations only.",
  "dependencygraph.cpp fastfileinfo.cpp filetime.cpp makefile.cpp", [("time stamp comparison", "dependencygraph.cpp: isTargetUpToDate"), ("target selection", "dependencygraph.cpp: findAvailableTarget")], [PROC, "file time stamps"])
p("C05", "Never more commands at once than the job limit allows",
  "At every moment the number of commands a jom process is running is at most the number given with /J (1 after .NOTPARALLEL or /J 1, the number of processors when nothing is given) and at most one more than the job tokens it currently holds. A jom started from a recipe that does not ask for its own number takes part in its parent's limit, so that the whole tree of jom processes never runs more commands than the top-level limit.",
  "schedules configurations", "every job limit, every wide or deep graph, every interleaving of command terminations, token grants and competing jom processes",
  TESTS + "none of them counts concurrently running commands, and none runs competing jom processes.",
  "targetexecutor.cpp jobclient.cpp jobclientacquirehelper.cpp jobserver.cpp src/app/main.cpp options.cpp", [("pool of executors and job tokens", "targetexecutor.cpp: startProcesses, buildNextTarget"), ("semaphore with N-1 tokens", "jobserver.cpp: start")], [PROC, "job server semaphore operations"])
p("C06", "Job tokens are neither lost nor invented",
  "Whenever jom exits, successfully, after a failed command, or on an internal error, it has returned exactly the job tokens it had taken from the job server, and no request for a token is outstanding. In between it returns a token whenever it needs fewer, so that idle capacity is available to other jom processes of the same build.",
  "schedules fault_sequences configurations", "every interleaving of token grants, competing token users, command terminations and failures, with every job limit, with and without /K",
  TESTS + "they never look at the semaphore; a leaked or duplicated token changes only the parallelism of other jom processes.",
  "targetexecutor.cpp jobclient.cpp jobclientacquirehelper.cpp jobserver.cpp", [("acquisition counter", "targetexecutor.cpp: startProcesses, onChildFinished, waitForJobClient")], ["job server semaphore operations"],
  [("job acquisition count", "tokens taken and not yet returned", "targetexecutor.h")])
p("C07", "A build always makes progress, ends, and uses the jobs it may use",
  "Every build of a finite makefile ends as soon as its commands end: jom never waits while nothing it waits for can happen. As long as a buildable target exists, and jobs are left under the limit, jom runs it or is waiting for a job token for it; it never holds back a target that could run.",
  "schedules fault_sequences configurations", "every graph, job limit and interleaving of terminations, token grants and competing users of tokens, with failing commands, with and without /K, at every number of available tokens including zero",
  TESTS + "a lost wake-up needs an interleaving of token grant and command termination that they never produce.",
  "targetexecutor.cpp jobclient.cpp jobclientacquirehelper.cpp jomprocess.cpp iocompletionport.cpp", [("queued scheduling step after every event", "targetexecutor.cpp: startProcesses, buildNextTarget, onChildFinished")], [PROC, "job server semaphore operations"])
p("C08", "A failed command stops the build with status 2 and leaves nothing running",
  "Without /K and /I, once a command ends with a status that is not tolerated, no recipe is started any more and jom exits with status 2, after every command and recipe that was already running has ended. No process that jom started outlives jom, neither after a failure nor after any other error.",
  "schedules fault_sequences", "every graph and job limit, every choice of failing commands and positions in the recipe, every order in which the remaining commands end, errors raised while a recipe is being prepared",
  TESTS + "the failing tests use one job or check only the exit status, not what is still running when jom exits.",
  "targetexecutor.cpp commandexecutor.cpp jomprocess.cpp", [("abort path", "targetexecutor.cpp: onChildFinished, waitForProcesses"), ("waiting for a child", "jomprocess.cpp: waitForFinished")], [PROC, "exit status of jom"])
p("C09", "With /K everything that does not depend on a failure is built, nothing else",
  "With /K, after a failed command every reachable target that does not depend, directly or transitively, on a failed target is still brought up to date, and no recipe of a target that depends on a failed one runs. jom then exits with status 1, and with 0 if nothing failed.",
  "schedules fault_sequences programs", "every graph, every set of failing targets, every job limit and termination order",
  TESTS + "one makefile with one failing target is used; sets of failures and completion orders are not varied.",
  "targetexecutor.cpp dependencygraph.cpp", [("unbuildable marking", "dependencygraph.cpp: markParentsRecursivlyUnbuildable"), ("final status", "targetexecutor.cpp: finishBuild")], [PROC, "exit status of jom"])
p("C10", "Which exit codes are tolerated follows prefixes, .IGNORE and /I exactly",
  "A command fails the recipe if and only if its exit code is greater than what it tolerates: any code with a plain '-' prefix or under /I or .IGNORE, up to n with '-n', 0 otherwise; a crashed command counts as code 2. A tolerated exit code has no effect on the remaining commands, on other targets, or on the exit status of jom.",
  "inputs configurations", "every exit code (including those with the sign bit set), every prefix combination with '@' and '!' in any order, every n, /I, .IGNORE at any place in the makefile, any position of the command in the recipe",
  "The tests cover a few prefixes with fixed exit codes and never boundary values or combinations.",
  "commandexecutor.cpp parser.cpp makefile.cpp options.cpp", [("command prefix parsing", "makefile.cpp: Command::evaluateModifiers"), ("comparison with the tolerated code", "commandexecutor.cpp: onProcessFinished")], [PROC, "exit status of jom", "error messages"])
p("C11", "Everything a command prints appears exactly once and in order",
  "Every byte a command writes to its standard output or standard error appears exactly once on the corresponding stream of jom, in the order written within that stream, for every command of every recipe, whether its output was shown live or collected, and whether it succeeded or failed. Echoed command lines and error messages about a recipe keep their place in the same sequence.",
  "schedules inputs", "every chunking of the output, every size, every interleaving of output and terminations of parallel commands, outputs left unfinished at termination, programs that leave a pipe open",
  TESTS + "chunk boundaries, buffering and the order of output versus termination events are decided by the operating system and never varied.",
  "jomprocess.cpp iocompletionport.cpp commandexecutor.cpp targetexecutor.cpp", [("overlapped pipe reading", "jomprocess.cpp, iocompletionport.cpp"), ("output buffers", "jomprocess.cpp: printBufferedOutput")], ["standard output and standard error of jom"])
p("C12", "Output of parallel recipes is never mixed",
  "At every moment the output of at most one running recipe is passed through live, and the output of every other recipe is held back until that recipe's command ends or until it becomes the live one. The output of a command whose recipe is held back therefore appears in one piece per stream, never interrupted by output of another command. While recipes are running, one of them is the live one: whenever jom waits and nothing is on its way to it, all that this recipe's command has printed so far is on jom's own streams.",
  "schedules", "every interleaving of output chunks and terminations of up to the job limit of parallel recipes",
  TESTS + "mixed output depends on timing and no test inspects the order of lines of parallel recipes.",
  "targetexecutor.cpp jomprocess.cpp commandexecutor.cpp", [("hand-over of the unbuffered role", "targetexecutor.cpp: onChildFinished"), ("buffer flush", "jomprocess.cpp: setBufferedOutput")], ["standard output and standard error of jom"])
p("C13", "Dry run starts nothing and prints what would run; echo obeys @, .SILENT and /S",
  "With /N no command is started and no file is created, changed or removed; what is printed is exactly the command lines that a build of the goal would execute if every recipe succeeds and brings its target up to date, silenced ones included, each once, in an order that the dependencies allow. When the dependency graph, the usage or the version is asked for nothing is started or changed either, and the graph shows each target that the goal needs below everything that depends on it. In a real build the line of each command that is executed is printed exactly once (with a single job: before the command starts), unless it is silenced by '@', .SILENT or /S; modifiers, also separated by white space, are not part of the line.",
  "programs configurations", "every makefile, every combination of modifiers, .SILENT and /S, with and without /N and /A, every state of the files, inference rules, inline files",
  "The tests compare the dry-run output of a few fixed makefiles.",
  "commandexecutor.cpp options.cpp parser.cpp targetexecutor.cpp makefile.cpp dependencygraph.cpp", [("dry run and echo decision", "commandexecutor.cpp: executeCurrentCommandLine"), ("command modifiers", "makefile.cpp: evaluateModifiers"), ("graph", "dependencygraph.cpp: dump")], [PROC, "standard output of jom"])
p("C14", "'cd' lasts for one recipe, 'set' for the build; commands see exactly that",
  "A 'cd' executed by jom itself sets the working directory of the following commands of the same recipe, itself relative to the directory that is current at this point, and of no other recipe; a 'cd' to something that is not an existing directory fails. A 'set' executed by jom itself defines the variable for every command started later, in any recipe; every other command starts in jom's own directory with jom's environment.",
  "schedules programs", "every sequence of cd, set and ordinary commands in parallel recipes, every job limit and termination order, recipes that reuse the executor of an earlier one",
  TESTS + "whether a directory or a variable leaks into another recipe depends on which executor slot is reused.",
  "commandexecutor.cpp jomprocess.cpp processenvironment.h", [("built-in cd and set", "commandexecutor.cpp: exec_cd, executeCurrentCommandLine, setEnvironment")], ["working directory and environment of started processes"])
p("C15", "Inline files exist with the right content while needed, and are cleaned up",
  "While a command that uses inline files runs, each of its inline files is there with exactly the text that the makefile gives for it (macros and file name macros expanded, regions skipped by conditionals left out), and the command line names it; the command line of a recipe of an inference rule names files of its own for every target. Names may be given with macros, file name macros and in quotes, and are relative to the working directory of the command. A file that is given without name gets a name that no recipe in progress uses and that does not belong to a file that is kept. After the build, including one that failed or that the user terminated, each file marked KEEP that was written is there with what the last command put in it, and all other inline files are gone.",
  "schedules programs fault_sequences", "any number of inline files per command and per recipe, named and unnamed, KEEP and NOKEEP, in own recipes, inference rules and batch rules, parallel recipes, failing recipes, files that cannot be created, termination by the user at any point",
  TESTS + "the inline file tests use sequential builds and do not look at what is left behind.",
  "commandexecutor.cpp parser.cpp makefile.cpp src/app/main.cpp", [("creation and removal", "commandexecutor.cpp: createTempFiles, cleanupTempFiles"), ("parsing", "parser.cpp: parseInlineFile"), ("inference rules", "makefile.cpp: applyInferenceRule")], ["files seen by started processes", "files left after jom exits"])
p("C16", "Several goals are built one after the other, each against the current files",
  "The goals on the command line are evaluated in the given order, a later goal only after the earlier one is finished, and a goal that fails keeps later goals from starting unless /K is given. Each goal is decided on the files as they are when it is evaluated, so nothing that an earlier goal already brought up to date is built again and nothing it made out of date is missed.",
  "histories programs schedules", "every sequence of goals with overlapping graphs, files changed as side effects of earlier recipes, every job limit",
  TESTS + "no test builds several goals whose recipes change each other's files.",
  "targetexecutor.cpp makefile.cpp fastfileinfo.cpp", [("re-evaluation between goals", "targetexecutor.cpp: startProcesses; makefile.cpp: invalidateTimeStamps")], [PROC])
p("C17", "Dependents listed before .SYNC finish before those listed after it start",
  "If a target's dependents are separated by .SYNC, no recipe of a target listed after the separator starts before every target listed before the separator is settled. This holds for any number of separators, any position, and for every dependency that the listed targets share.",
  "programs schedules", "every dependency list with separators at any position, dependents that are plain files, shared or repeated, every schedule and job limit",
  TESTS + "one makefile with .SYNC is parsed; its effect on parallel execution is not observed.",
  "parser.cpp makefile.cpp dependencygraph.cpp", [("ordering edges", "parser.cpp / makefile.cpp: handling of .SYNC")], [PROC])
p("C18", "The inference rule chosen for a target is the documented one",
  "For a target without explicit commands, the rule applied is one whose target suffix and directory match the target and whose source file is there when it is the target's turn; among several it is the one whose source suffix comes first in .SUFFIXES, and among those the last one in the makefile. Explicit commands always win, the source is added to what the target depends on, and a rule whose source suffix is not in .SUFFIXES is never used. Suffixes and directories are compared like file names (without case, either separator).",
  "programs configurations", "every combination of rules, suffix lists (set, extended, cleared), directories and their spellings, existing and generated source files, time stamps",
  "The tests use a few fixed rule sets, with one or two candidate sources.",
  "makefile.cpp parser.cpp makefile.h dependencygraph.cpp", [("rule filtering", "makefile.cpp: filterRulesByDependent, matchingInferenceRule, applyInferenceRules; parser.cpp: findRulesByTargetName, preselectInferenceRules"), ("suffix bookkeeping", "parser.cpp: parseDotDirective; makefile.cpp: calculateInferenceRulePriorities")], ["commands executed", "exit status"])
p("C19", "Batch rules build their outdated targets together, each exactly once",
  "The out-of-date targets that a batch-mode rule builds are built by commands that get lists of exactly their sources, each source in exactly one list, and what is up to date is in none. Targets that are ready together share a command: one command if there is one job, never more than three for every two jobs. Each target counts as built by its command: whatever depends on it starts only after that command has ended successfully, and never if it failed. /Y turns batching off.",
  "programs schedules", "every set of targets and sources, several directories and batch rules, with up-to-date members, every job limit and schedule, failing batch commands, /K",
  TESTS + "batch mode is tested by parsing and one dry run, never for ordering against a running batch command.",
  "makefile.cpp dependencygraph.cpp targetexecutor.cpp", [("batch application", "makefile.cpp: applyInferenceRules, applyInferenceRule (batch)"), ("waiting for the batch command", "dependencygraph.cpp: findAvailableTarget")], [PROC, "commands executed"])
p("C20", "Exactly the lines of the selected conditional branches take effect",
  "For every nesting of !IF, !IFDEF, !IFNDEF, !ELSE, !ELSEIF, !ELSEIFDEF, !ELSEIFNDEF and !ENDIF, exactly the lines of the first branch whose condition is true take effect, at every level, and skipped regions have no effect at all, whatever they contain. Unbalanced directives (a branch or !ENDIF without a conditional, a branch after !ELSE, a missing !ENDIF) are errors, and nothing is built.",
  "inputs", "every nesting and sequence of directives, conditions over defined, undefined and empty macros, skipped regions containing directives, includes, errors and malformed text",
  "The tests use a few fixed makefiles out of an unbounded set of nestings.",
  "preprocessor.cpp ppexprparser.cpp", [("conditional stack", "preprocessor.cpp: enterConditional, exitConditional, skipUntilNextMatchingConditional")], ["targets and macros that take effect", "error messages"])
p("C21", "Included files take effect in place, and are found where documented",
  "An included file takes effect exactly as if its lines stood at the place of the !INCLUDE directive, at any nesting depth, and a file that cannot be found or that includes itself is an error that builds nothing. A name is looked for in the current directory, then next to the including files from the innermost outwards, and, if it is given in angle brackets, then in the directories of INCLUDE in their order.",
  "inputs configurations", "every include tree with files of the same name in several directories, conditionals and macros spanning files, INCLUDE with several or missing directories, macros in the file name",
  "The tests include a few files with distinct names at fixed places.",
  "preprocessor.cpp", [("include search", "preprocessor.cpp: parsePreprocessingDirective, findIncludeFile"), ("file stack", "preprocessor.cpp: readLine, openFile")], ["targets and macros that take effect", "error messages"])
p("C22", "Preprocessing expressions are evaluated with the documented semantics",
  "Every expression over integer and string constants with the operators of the language is evaluated with C precedence and associativity on integers, strings are compared exactly by == and !=, DEFINED and EXIST test what they say, and a bracketed command yields its exit code. A malformed expression, and a division or remainder by zero, is reported as an error; it never crashes jom and never selects a branch.",
  "inputs", "every expression tree over all unary and binary operators, parentheses and white space, numbers that stay within 32 bits, strings with special characters",
  "The tests evaluate a table of some dozens of expressions.",
  "ppexprparser.cpp ppexpr_grammar.cpp ppexpr.g preprocessor.cpp", [("LALR parser", "ppexprparser.cpp, ppexpr_grammar.cpp")], ["which branch takes effect", "error messages"])
p("C23", "Macro references expand recursively to the value in force, without residue",
  "A macro reference expands to the macro's value, with references inside it expanded as well, and to nothing if undefined; $$ is a dollar sign, and a substitution replaces every occurrence of the given text case-sensitively in the expanded value. Names are case-sensitive, a reference to a macro within its own definition stands for the value it had before, and a macro that otherwise contains itself, directly or by way of others, is an error and not an endless loop.",
  "inputs", "every set of macro definitions and references nested to any depth, all forms of reference, substitutions with empty or special text, undefined macros, cycles",
  "The tests expand a list of fixed strings.",
  "macrotable.cpp preprocessor.cpp parser.cpp", [("expansion", "macrotable.cpp: expandMacros, cycleCheck"), ("substitution", "macrotable.cpp: parseSubstitutionStatement, applySubstitutionStatement")], ["command lines executed", "error messages"])
p("C24", "Macro definitions override each other in the documented order",
  "A macro given on the command line beats a definition in the makefile, which beats the environment, which beats a predefined macro; with /E the environment beats the makefile. Among definitions in the makefile the last one read before the use takes effect; names of targets, dependents, commands and messages use what is defined where they stand, commands of inference rules what is defined at the end. !UNDEF removes a macro defined in the makefile, predefined, or, without /E, from the environment.",
  "inputs configurations", "every combination of sources for a macro, with and without /E and /R, any order and number of definitions, references before and after redefinition",
  "The tests check pairs of sources for one macro name each.",
  "macrotable.cpp options.cpp makefilefactory.cpp preprocessor.cpp", [("source ranking", "macrotable.cpp: setMacroValueImpl, MacroData source")], ["command lines executed"])
p("C25", "Commands get jom's environment, updated by what the makefile redefines",
  "Every command gets the environment jom was started with, in which a variable is changed only if the makefile or a macro on the command line redefines it, in which case the command sees the redefined value, expanded; macro references in inherited values are expanded too. Macros on the command line are exported, those that only the makefile defines are not, and no other variable appears, disappears or changes except those that carry the job server and the options for a nested jom.",
  "inputs configurations", "every environment and set of macro definitions, values containing references, case variants of names, /E, command line definitions",
  "No test looks at the environment of a started command.",
  "macrotable.cpp jomprocess.cpp makefilefactory.cpp processenvironment.h", [("environment update", "macrotable.cpp: setMacroValueImpl, defineEnvironmentMacroValue")], ["environment of started processes"])
p("C26", "Comments and line continuations join exactly the text they should",
  "A makefile means what its logical lines say: a backslash at the end of a line joins the next line, with a single blank in place of the line end and the white space that follows it; lines that start with # are not there at all; elsewhere outside commands a comment runs from a # that is not preceded by ^ to the end of the line; a # within a command belongs to the command. CRLF or LF, a byte order mark or UTF-16, the length of lines, a missing last line end, and white space at the end of lines outside commands make no difference.",
  "inputs", "every sequence of lines with comments, continuations, quoting and blank lines in rules, recipes and definitions, with LF or CRLF, lines around the reader's buffer size",
  "The tests use fixed makefiles with short lines.",
  "makefilelinereader.cpp preprocessor.cpp parser.cpp", [("logical line reader", "makefilelinereader.cpp: readLine_impl"), ("comment removal", "helperfunctions.cpp, preprocessor.cpp")], ["command lines executed", "targets that exist"])
p("C27", "Description blocks add up to exactly the stated targets, dependents, commands",
  "A description block gives each of its targets the listed dependents, in order, and its commands; dependents of several blocks of one target add up in order; single-colon blocks of a target take their commands from the first of them that has any, and double-colon blocks add up their commands. White space, several targets per line, a command after a semicolon, quoted names and names containing special characters are understood as documented.",
  "inputs programs", "every sequence of blocks over shared targets with and without commands, single and double colons, all layouts",
  "The tests parse a few fixed makefiles.",
  "parser.cpp makefile.cpp", [("block parsing", "parser.cpp: parseDescriptionBlock, createDescriptionBlock, readTargetIdentifiers")], [PROC, "command lines executed"])
p("C28", "Filename macros and their modifiers name the right files in every command",
  "In every command $@ is the target, $* the target without its extension, $< the dependent that an inference rule was applied to, $** all dependents in order and $? those that are not older than the target; the modifiers D, B, F and R select directory, base name (up to the first dot), file name and path without extension, and a substitution replaces text in each name. Names with blanks are put in quotes, and what has no value leaves nothing behind. The command prefix '!' repeats the command for each file of $** or $? that it uses.",
  "inputs programs", "every target and dependent name (with and without directories, extensions, several dots, spaces), every macro and modifier, every time stamp constellation, substitution in filename macros",
  "The tests expand a few fixed commands.",
  "makefile.cpp makefile.h commandexecutor.cpp", [("filename macro expansion", "makefile.cpp: expandFileNameMacros, getFileNameMacroValue")], ["command lines executed"])
p("C29", "A makefile that is not well formed builds nothing and fails",
  "If a line of the makefile or of an included file that no conditional switches off is a syntax error, a conditional is not closed or not opened, a macro reference or an inline file is not closed, an included file is missing, !ERROR is reached, a target has both : and :: blocks, a goal does not exist, or what a goal depends on leads to a cycle, jom ends with a non-zero status and an error message and starts no command. If something a goal depends on neither exists nor has a rule, the build fails with a message when it is that goal's turn and starts nothing for it. This holds for a fault anywhere, with any options; jom neither hangs nor crashes, and it builds what is free of faults with status 0.",
  "inputs programs", "every kind of fault at every position of a makefile, cycles of any length through any edges, with and without /K, /A and /N",
  "The tests provoke each kind of error once.",
  "parser.cpp preprocessor.cpp dependencygraph.cpp makefile.cpp src/app/main.cpp", [("cycle check", "parser.cpp: checkForCycles"), ("missing dependents", "dependencygraph.cpp: internalBuild")], [PROC, "exit status of jom", "error messages"])
p("C30", "Options mean the same on the command line, in JOMFLAGS and in command files",
  "The words that count are those of JOMFLAGS (MAKEFLAGS if it is not set) as one word of options, then those of the command line, then those of the command files named by @file on the command line, which are split at blanks and ends of lines outside of quotes (two quotes within quotes stand for one). A word that begins with / or - holds options, in either case and alone or combined; a word with = defines a macro, which wins over the makefile and the environment (the first definition of a name counts; a name in lower case also defines the one in capitals); any other word is a goal. Every option does what the usage text says wherever it was given (/G is accepted and does nothing): /A /D /E /F /H /I (over /K) /K /L /NOLOGO /N /P /R /S /U /W /X /Y /J /VERSION; the last /F, /X and /J count. $(MAKEFLAGS) holds letters that, given again after a /, mean the same options and the same number of jobs, without /F, /X and the options that only ask for information. An unknown option, a missing or wrong argument, an unreadable command file or an invalid macro name is an error with exit status 128 that starts nothing.",
  "inputs configurations", "every combination and order of options, arguments in every place, command files with any quoting and line structure, environment variables set or not",
  "The tests exercise a few options singly.",
  "options.cpp makefilefactory.cpp src/app/main.cpp", [("option parsing", "options.cpp: readCommandLineArguments, handleCommandLineOption, expandCommandFiles")], [PROC, "exit status of jom", "environment of started processes"])
assert len({x["id"] for x in P}) == len(P)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
