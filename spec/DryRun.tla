------------------------------- MODULE DryRun -------------------------------
(* What is printed about the commands of a build, and what a build that only   *)
(* prints does (C13).                                                          *)
(*                                                                             *)
(* In.nodes, dependents first: [name, deps: numbers in the order of the text,  *)
(* file: not a target, exists, mt, lines].  A line is what is printed for one  *)
(* command: [text, silent: by @ or .SILENT, starts: a process is started].     *)
(* In.goal; In.all: /A; In.quiet: /S; In.single: at most one job.              *)
(* Obs.dry, Obs.real: with and without /N:                                     *)
(*   [how, rc, ev: <<kind, text>>..., changed: files that were touched]         *)
(* kind: "w" a line printed, "s" a process started.                            *)
(* Obs.graph: [how, rc, starts, changed, lines: <<depth, name>>...]            *)
EXTENDS Cases
VARIABLES l, shown, started, viol
vars == <<id, decided, l, shown, started, viol>>
N == 1..Len(In.nodes)
Nd(t) == In.nodes[t]
Deps(t) == {Nd(t).deps[i] : i \in 1..Len(Nd(t).deps)}
RECURSIVE Reach(_, _)
Reach(S, done) == IF S \subseteq done THEN done ELSE Reach(UNION {Deps(t) : t \in S}, done \cup S)
(* every recipe brings its target up to date: which ones run? *)
Now == 1000000000
RECURSIVE Plan(_)
Plan(res) ==
  IF Len(res) = Len(In.nodes) THEN res
  ELSE LET t == Len(res) + 1
           newest == IF Deps(t) = {} THEN 0 ELSE res[CHOOSE d \in Deps(t) : \A e \in Deps(t) : res[e].time <= res[d].time].time
           has == Nd(t).lines # <<>>
           stale == ~Nd(t).file /\ (In.all \/ ~Nd(t).exists \/ newest > Nd(t).mt)
           time == IF Nd(t).file THEN Nd(t).mt
                   ELSE IF has /\ stale THEN Now
                   ELSE IF Nd(t).exists THEN Nd(t).mt
                   ELSE IF Deps(t) = {} THEN Now ELSE newest
       IN Plan(Append(res, [runs |-> has /\ stale, time |-> time]))
(* computed once per case, in the first step *)
Runs == LET p == Plan(<<>>) IN {t \in Reach({In.goal}, {}) : p[t].runs}
Total(t) == Len(Nd(t).lines)
Find(x) == LET S == {<<t, i>> \in UNION {{t} \X (1..Total(t)) : t \in N} : Nd(t).lines[i].text = x}
           IN IF S = {} THEN <<0, 0>> ELSE CHOOSE s \in S : TRUE
Prints(t, i) == ~Nd(t).lines[i].silent /\ ~In.quiet

(* the dry run, as a whole: the printed lines in order *)
Lines(o) == SelectSeq(o.ev, LAMBDA e : e[1] = "w")
Dry(run) ==
  LET w == Lines(Obs.dry)
      at == [k \in 1..Len(w) |-> Find(w[k][2])]
      want == UNION {{t} \X (1..Total(t)) : t \in run}
      pos(c) == CHOOSE k \in 1..Len(at) : at[k] = c
      all == {at[k] : k \in 1..Len(at)}
      same == all = want /\ Len(at) = Cardinality(all)
  IN  If(\E k \in 1..Len(Obs.dry.ev) : Obs.dry.ev[k][1] = "s", "started")
      \cup If(Obs.dry.changed # <<>>, "changed")
      \cup If(~same, "drylines")
      \cup If(same /\ \E c \in want : c[2] > 1 /\ pos(c) < pos(<<c[1], c[2] - 1>>), "dryorder")
      \cup If(same /\ \E t \in run : \E d \in run \cap Reach(Deps(t), {}) : pos(<<d, Total(d)>>) > pos(<<t, 1>>), "dryorder")
      \cup If(Obs.dry.how # "exit" \/ Obs.dry.rc # 0, "drystatus")

(* the real build, event by event *)
E == Obs.real.ev[l + 1]
OnPrint == LET c == Find(E[2])
           IN /\ viol' = viol \cup If(c[1] = 0 \/ c \in shown, "printed")
                              \cup If(c[1] # 0 /\ ~Prints(c[1], c[2]), "silenced")
                              \cup If(c[1] # 0 /\ In.single /\ c \in started, "late")
              /\ shown' = shown \cup {c} /\ UNCHANGED started
OnStart == LET c == Find(E[2])
           IN /\ viol' = viol \cup If(c[1] = 0, "unknown")
                              \cup If(c[1] # 0 /\ In.single /\ Prints(c[1], c[2]) /\ c \notin shown, "late")
              /\ started' = started \cup {c} /\ UNCHANGED shown
Real(run) ==
  LET cs == UNION {{t} \X (1..Total(t)) : t \in run}
      want == {c \in cs : Prints(c[1], c[2])}
      starts == {c \in cs : Nd(c[1]).lines[c[2]].starts}
  IN  If(shown # want, "echo") \cup If(started # starts, "ran")
      \cup If(Obs.real.how # "exit" \/ Obs.real.rc # 0, "status")

(* the graph: every target that the goal needs, below what needs it *)
RECURSIVE Tree(_, _), Forest(_, _)
Tree(t, depth) == <<<<depth, Nd(t).name>>>> \o Forest(Nd(t).deps, depth + 1)
Forest(ds, depth) == IF ds = <<>> THEN <<>>
                     ELSE (IF Nd(ds[1]).file THEN <<>> ELSE Tree(ds[1], depth)) \o Forest(Tail(ds), depth)
Graph == If(Obs.graph.starts # 0, "graphstarts") \cup If(Obs.graph.changed # <<>>, "graphchanges")
         \cup If(Obs.graph.how # "exit" \/ Obs.graph.rc # 0, "graphstatus")
         \cup If(In.tree /\ Obs.graph.lines # Tree(In.goal, 0), "graph")
Finally == LET run == Runs IN Dry(run) \cup Real(run) \cup Graph
Init == Start /\ l = 0 /\ shown = {} /\ started = {} /\ viol = {}
Next == \/ ~decided /\ l < Len(Obs.real.ev) /\ l' = l + 1 /\ (IF E[1] = "w" THEN OnPrint ELSE OnStart) /\ UNCHANGED <<id, decided>>
        \/ ~decided /\ l = Len(Obs.real.ev) /\ Decide(viol \cup Finally) /\ UNCHANGED <<l, shown, started, viol>>
        \/ decided /\ UNCHANGED vars
CaseSpec == Init /\ [][Next]_vars
=============================================================================
