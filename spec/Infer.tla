------------------------------- MODULE Infer --------------------------------
(* Which inference rule builds a target, and how batch rules build several     *)
(* targets with one command (C18, C19).                                        *)
(*                                                                             *)
(* In.suffixes: the .SUFFIXES directives in text order, each a sequence of     *)
(* suffixes (an empty one clears the list), after In.defaults.                 *)
(* In.rules: in text order [fd, fe, td, te: directory and suffix of source     *)
(* and target, batch: two colons, n: number of commands, fails: the last one].  *)
(* In.targets: every target dependents first, the goal last:                   *)
(*   [n: name, deps: names, own: number of commands, fails: the last of them   *)
(*   fails, implicit: not mentioned as a target in the makefile, p: its        *)
(*   number in the commands]                                                   *)
(* In.files: <<name, time>>.  Names are spelled in one way (the file system    *)
(* ignores case); the target of a rule is td\base te, the source fd\base fe.   *)
(* Obs.ev: [e |-> "s", k |-> number of the process, r |-> rule or 0, c |->     *)
(* number of the command, a |-> the arguments] and [e |-> "d", k, ok].         *)
(* The arguments are source and target, for batch rules the sources, for the   *)
(* commands of explicit targets (r = 0) the target.                            *)
EXTENDS Cases
RECURSIVE ListOf(_, _)
ListOf(list, ds) == IF ds = <<>> THEN list ELSE ListOf(IF ds[1] = <<>> THEN <<>> ELSE list \o ds[1], Tail(ds))
SuffixList == ListOf(In.defaults, In.suffixes)
Index(s) == LET S == {i \in 1..Len(SuffixList) : SuffixList[i] = s} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE Final(_, _, _)
Final(s, c, i) == IF i = 0 THEN 0 ELSE IF SubSeq(s, i, i) = c THEN i ELSE Final(s, c, i - 1)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
File(n) == From(n, Final(n, "\\", Len(n)) + 1)
Directory(n) == LET k == Final(n, "\\", Len(n)) IN IF k = 0 THEN "." ELSE SubSeq(n, 1, k - 1)
EndsWith(n, e) == Len(n) >= Len(e) /\ From(n, Len(n) - Len(e) + 1) = e
In1(d, f) == IF d = "." THEN f ELSE d \o "\\" \o f
R == 1..Len(In.rules)
T == 1..Len(In.targets)
Rule(r) == In.rules[r]
Targ(t) == In.targets[t]
Named(n) == LET S == {t \in T : Targ(t).n = n} IN IF S = {} THEN 0 ELSE CHOOSE t \in S : TRUE
Time0(n) == LET S == {i \in 1..Len(In.files) : In.files[i][1] = n} IN IF S = {} THEN 0 ELSE In.files[CHOOSE i \in S : TRUE][2]
Matches(r, t) == Index(Rule(r).fe) # 0 /\ EndsWith(Targ(t).n, Rule(r).te) /\ Directory(Targ(t).n) = Rule(r).td
Source(r, t) == LET f == File(Targ(t).n) IN In1(Rule(r).fd, SubSeq(f, 1, Len(f) - Len(Rule(r).te)) \o Rule(r).fe)
(* What becomes of targets 1..Len(res), given that nothing fails: a record for *)
(* each: rule, src, deps (with src), runs, there, time (large if built).       *)
Now == 1000000000
Outcome(res, t) ==
  LET tt == Targ(t)
      there(n) == IF Named(n) # 0 /\ Named(n) <= Len(res) THEN res[Named(n)].there ELSE Time0(n) # 0
      time(n) == IF Named(n) # 0 /\ Named(n) <= Len(res) THEN res[Named(n)].time ELSE Time0(n)
      cand == IF tt.own > 0 THEN {} ELSE {r \in R : Matches(r, t) /\ there(Source(r, t))}
      better(a, b) == Index(Rule(a).fe) < Index(Rule(b).fe) \/ (Index(Rule(a).fe) = Index(Rule(b).fe) /\ a > b)
      r == IF cand = {} THEN 0 ELSE CHOOSE c \in cand : \A d \in cand \ {c} : better(c, d)
      src == IF r = 0 THEN "" ELSE Source(r, t)
      deps == IF r = 0 \/ \E i \in 1..Len(tt.deps) : tt.deps[i] = src THEN tt.deps ELSE Append(tt.deps, src)
      D == {deps[i] : i \in 1..Len(deps)}
      own == Time0(tt.n)
      stale == own = 0 \/ \E d \in D : time(d) > own \/ time(d) = 0
      \* something without commands that does not exist is as new as what it depends on
      newest == IF D = {} \/ \E d \in D : time(d) = 0 THEN Now ELSE time(CHOOSE d \in D : \A e \in D : time(e) <= time(d))
      cmds == IF r = 0 THEN tt.own ELSE Rule(r).n
      runs == (In.all \/ stale) /\ cmds > 0
  IN [rule |-> r, src |-> src, deps |-> D, runs |-> runs, there |-> own # 0 \/ runs, time |-> IF runs THEN Now ELSE IF own # 0 THEN own ELSE newest,
      missing |-> tt.implicit /\ own = 0 /\ r = 0, n |-> cmds,
      \* nothing has to be done before it can be built
      ready |-> \A d \in D : Named(d) = 0]
RECURSIVE Plan(_)
Plan(res) == IF Len(res) = Len(In.targets) THEN res ELSE Plan(Append(res, Outcome(res, Len(res) + 1)))
(* all that a target depends on, itself included *)
RECURSIVE Needs(_, _)
Needs(P, t) == {t} \cup UNION {Needs(P, Named(d)) : d \in {x \in P[t].deps : Named(x) # 0 /\ Named(x) # t}}
Batched(P, t) == P[t].runs /\ P[t].rule # 0 /\ In.batching /\ Rule(P[t].rule).batch

(* ---- what was seen ---- *)
N == Len(Obs.ev)
Starts == {i \in 1..N : Obs.ev[i].e = "s"}
EndOf(i) == LET S == {j \in i + 1..N : Obs.ev[j].e = "d" /\ Obs.ev[j].k = Obs.ev[i].k} IN IF S = {} THEN N + 1 ELSE CHOOSE j \in S : TRUE
Good(i) == EndOf(i) <= N /\ Obs.ev[EndOf(i)].ok
(* does start i build target t (command c of it)? *)
Builds(P, i, t) ==
  LET e == Obs.ev[i] IN
  P[t].runs /\ e.r = P[t].rule /\
  CASE e.r = 0 -> e.a = << Targ(t).n >>
    [] Batched(P, t) -> \E j \in 1..Len(e.a) : e.a[j] = P[t].src
    [] OTHER -> e.a = << P[t].src, Targ(t).n >>
Building(P, t) == {i \in Starts : Builds(P, i, t)}
Complete(P, t, S) == \A c \in 1..P[t].n : \E i \in S : Obs.ev[i].c = c /\ Good(i)
Fails(P, t) == P[t].runs /\ IF P[t].rule # 0 THEN Rule(P[t].rule).fails ELSE Targ(t).fails
(* ---- judgement ---- *)
(* everything that is started has a target that it builds, which is out of date and not started twice *)
Unknown(P) == \E i \in Starts : LET e == Obs.ev[i] IN
              IF e.r # 0 /\ Rule(e.r).batch /\ In.batching
              THEN \E j \in 1..Len(e.a) : ~\E t \in T : Batched(P, t) /\ P[t].rule = e.r /\ P[t].src = e.a[j]
              ELSE ~\E t \in T : Builds(P, i, t)
Twice(P) == \E t \in T : \E i, j \in Building(P, t) : i # j /\ Obs.ev[i].c = Obs.ev[j].c
RepeatedIn(P) == \E i \in Starts : Obs.ev[i].r # 0 /\ Rule(Obs.ev[i].r).batch /\ In.batching /\
                 \E j, k \in 1..Len(Obs.ev[i].a) : j # k /\ Obs.ev[i].a[j] = Obs.ev[i].a[k]
Refusing(P, S) == \E t \in T : P[t].missing /\ t \in S
Blocked(P, t) == \E u \in Needs(P, t) \ {t} : Fails(P, u) \/ P[u].missing
(* without failures everything is built; with /K, everything that needs nothing that failed *)
Undone(P) == LET wanted == IF \E t \in T : P[t].missing THEN {}
                           ELSE IF \E t \in T : Fails(P, t) THEN (IF In.keep THEN {t \in T : ~Blocked(P, t) /\ ~Fails(P, t)} ELSE {})
                           ELSE T
             IN \E t \in wanted : P[t].runs /\ ~Complete(P, t, Building(P, t))
Early(P) == \E t \in T : P[t].runs /\ \E d \in P[t].deps :
              LET u == Named(d) IN u # 0 /\ \E i \in Building(P, t) :
                 \/ P[u].missing
                 \/ (P[u].runs /\ ~Complete(P, u, {j \in Building(P, u) : EndOf(j) < i}))
Ordered(P) == \A t \in T : \A i, j \in Building(P, t) : Obs.ev[i].c < Obs.ev[j].c => EndOf(i) < j
(* the commands of one batch get the same list *)
Uneven(P) == \E t \in T : Batched(P, t) /\ \E i, j \in Building(P, t) : Obs.ev[i].a # Obs.ev[j].a
(* how many first commands a rule is started with for targets that are ready from the beginning *)
Apart(P) == In.single /\ \E r \in R : Rule(r).batch /\ In.batching /\
            LET M == {t \in T : Batched(P, t) /\ P[t].rule = r /\ P[t].ready}
                S == {i \in UNION {Building(P, t) : t \in M} : Obs.ev[i].c = 1}
            IN 2 * Cardinality(S) > 3 * In.jobs
Alone(P) == In.single /\ In.jobs = 1 /\ \E r \in R : Rule(r).batch /\ In.batching /\
            LET M == {t \in T : Batched(P, t) /\ P[t].rule = r /\ P[t].ready}
            IN \E t, u \in M : Building(P, t) # Building(P, u)
Status(P) == LET bad == \E t \in T : P[t].missing \/ Fails(P, t) IN (Obs.rc = 0) # ~bad
Judge(P) == If(Obs.how # "exit", "crash") \cup If(Unknown(P), "unexpected") \cup If(Twice(P) \/ RepeatedIn(P), "twice")
            \cup If(Undone(P), "undone") \cup If(Early(P), "early") \cup If(~Ordered(P), "order") \cup If(Uneven(P), "uneven")
            \cup If(Apart(P) \/ Alone(P), "apart") \cup If(Status(P), "status")
Init == Start
Next == Decide(Judge(Plan(<<>>)))
CaseSpec == Init /\ [][Next]_<<id, decided>>
=============================================================================
