-------------------------------- MODULE Exec --------------------------------
(* What a jom build may do, in terms of what can be observed of it: commands  *)
(* that start and end, job tokens that are taken and returned, moments at     *)
(* which jom waits, and how it ends.                                          *)
(*                                                                            *)
(* A build is described by a configuration c:                                 *)
(*   n        number of nodes; nodes are numbered so that every dependent has *)
(*            a smaller number than what depends on it                        *)
(*   deps[t]  dependents of node t          (sequence of nodes)               *)
(*   sync[t]  nodes that .SYNC puts before t (sequence of nodes)              *)
(*   isfile[t] t is a plain file, not a target                                *)
(*   cmds[t]  for each command of t's recipe the greatest tolerated exit      *)
(*            code, -1 for "any"                                              *)
(*   goals    the goals in order                                              *)
(*   J, K, A  job limit, keep going, build everything                         *)
(*   H        number of jobs that nested joms are told                          *)
(*   T        tokens of the job server this jom must create, -1 if it must not *)
(*   mt[t]    time stamp of t's file at the start, 0 if there is none         *)
(* Within the evaluation of a goal, recipes change no file that belongs to it  *)
(* but the one of their own target, except that the recipe of the goal itself  *)
(* may change any.                                                            *)
(*                                                                            *)
(* The state is one record s; every operator On...(c, s, ...) yields the      *)
(* state after the event.  s.viol collects <<rule, number of the event>> for  *)
(* every rule that the event breaks.  Design.tla uses these operators to      *)
(* judge a model of jom's scheduler, ExecTrace.tla to judge recordings of the *)
(* real program.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

INF == 1000000000
Max2(a, b) == IF a >= b THEN a ELSE b
MaxTs(ts, d) == FoldLeft(LAMBDA m, x : Max2(m, ts[x]), 0, d)
Range0(q) == {q[i] : i \in 1..Len(q)}
Ids(c) == [i \in 1..c.n |-> i]

(* ---- which nodes are settled, out of date, or depend on a failure --------- *)
(* done  settled                                                              *)
(* tsm, tsM  time stamp counted for a node as a dependent, without and with   *)
(*       the edges that .SYNC adds (the property fixes only the former)       *)
(* must, may  has commands and is out of date, counted the two ways           *)
(* badm, badM depends on a failed node, counted the two ways                  *)
EvalNode(c, s, acc, t) ==
  LET d == c.deps[t]
      y == c.deps[t] \o c.sync[t]
      exists == s.file[t] # 0
      cmd == Len(c.cmds[t]) > 0
      ready == \A i \in 1..Len(y) : y[i] \in acc.done
      lm == MaxTs(acc.tsm, d)
      lM == MaxTs(acc.tsM, y)
      must == cmd /\ (c.A \/ ~exists \/ lm > s.file[t])
      may == cmd /\ (c.A \/ ~exists \/ lM > s.file[t])
      done == \/ c.isfile[t]
              \/ s.st[t] = "ok"
              \/ s.st[t] = "idle" /\ ready /\ ~must
      own == IF ~s.pre[t] \/ ~exists THEN INF ELSE s.file[t]
      Ts(l, q) == IF c.isfile[t] THEN (IF exists THEN s.file[t] ELSE INF)
                  ELSE IF s.st[t] = "ok" THEN own
                  ELSE IF exists THEN s.file[t]
                  ELSE IF cmd \/ q = <<>> THEN INF ELSE l
      badm == s.st[t] = "fail" \/ \E i \in 1..Len(d) : d[i] \in acc.badm
      badM == s.st[t] = "fail" \/ \E i \in 1..Len(y) : y[i] \in acc.badM
  IN [done |-> IF done THEN acc.done \cup {t} ELSE acc.done,
      ready |-> IF ready THEN acc.ready \cup {t} ELSE acc.ready,
      must |-> IF must THEN acc.must \cup {t} ELSE acc.must,
      may |-> IF may THEN acc.may \cup {t} ELSE acc.may,
      badm |-> IF badm THEN acc.badm \cup {t} ELSE acc.badm,
      badM |-> IF badM THEN acc.badM \cup {t} ELSE acc.badM,
      tsm |-> Append(acc.tsm, Ts(lm, d)),
      tsM |-> Append(acc.tsM, Ts(lM, y))]
Eval(c, s) == FoldLeft(LAMBDA acc, t : EvalNode(c, s, acc, t),
                       [done |-> {}, ready |-> {}, must |-> {}, may |-> {},
                        badm |-> {}, badM |-> {}, tsm |-> <<>>, tsM |-> <<>>], Ids(c))

Reach(c, g) ==
  FoldLeft(LAMBDA r, i : LET t == c.n + 1 - i
                         IN IF t \in r THEN r \cup Range0(c.deps[t]) \cup Range0(c.sync[t]) ELSE r,
           {g}, Ids(c))

(* ---- states --------------------------------------------------------------- *)
EnterGoal(c, s, g) ==
  [s EXCEPT !.g = g,
            !.reach = IF g <= Len(c.goals) THEN Reach(c, c.goals[g]) ELSE {},
            !.st = [t \in 1..c.n |-> "idle"], !.pc = [t \in 1..c.n |-> 0],
            !.pre = [t \in 1..c.n |-> s.file[t] # 0], !.wiped = FALSE]
Start0(c) ==
  EnterGoal(c, [g |-> 1, reach |-> {}, st |-> <<>>, pc |-> <<>>, pre |-> <<>>,
                cur |-> {}, undel |-> {}, file |-> [t \in 1..c.n |-> c.mt[t]],
                wiped |-> FALSE, held |-> 0, pend |-> 0, aborted |-> FALSE, failed |-> FALSE,
                l |-> 0, viol |-> {}], 1)

Active(c, s) == {t \in 1..c.n : s.st[t] = "run"}
(* nothing is left to be done for the current goal *)
Complete(c, s) ==
  LET e == Eval(c, s)
  IN /\ Active(c, s) = {}
     /\ \/ \A t \in s.reach : s.st[t] = "idle" => (t \notin e.must \/ t \in e.badM)
        \/ s.wiped /\ s.st[c.goals[s.g]] \in {"ok", "fail"}
RECURSIVE Advance(_, _)
Advance(c, s) ==
  IF s.g < Len(c.goals) /\ Complete(c, s) THEN Advance(c, EnterGoal(c, s, s.g + 1)) ELSE s

Add(s, labels) == [s EXCEPT !.l = s.l + 1, !.viol = s.viol \cup {<<x, s.l + 1>> : x \in labels}]
If(b, label) == IF b THEN {label} ELSE {}

(* ---- rules ------------------------------------------------------------------ *)
(* the first command of t's recipe starts *)
StartRules(c, s, t) ==
  LET e == Eval(c, s)
      d == Range0(c.deps[t])
      y == Range0(c.sync[t])
  IN    If(\E x \in d : x \notin e.done /\ x \notin e.badm, "dep")
   \cup If(\E x \in d : x \in e.badm, "afterfail")
   \cup If(\E x \in y : x \notin e.done /\ x \notin e.badM, "sync")
   \cup If(s.st[t] # "idle", "twice")
   \cup If(s.st[t] = "idle" /\ t \in e.ready /\ t \notin e.may, "fresh")
   \cup If(t \notin s.reach, "unreachable")
   \cup If(s.aborted, "afterabort")
CountRules(c, s) ==
  If(Cardinality(s.cur) + 1 > c.J, "limit") \cup If(Cardinality(s.cur) > s.held, "untokened")
OnStart(c, s0, t, i) ==
  LET s == IF i = 1 THEN Advance(c, s0) ELSE s0
      v == IF i = 1 THEN StartRules(c, s, t)
           ELSE If(s.st[t] # "run" \/ t \in s.cur \/ s.pc[t] # i - 1 \/ t \in s.undel, "sequence")
  IN [Add(s, v \cup CountRules(c, s)) EXCEPT !.st[t] = "run", !.pc[t] = i, !.cur = s.cur \cup {t}]

(* the running command of t ends with code rc; fs lists the changed files: <<node, time stamp, 0 if deleted>> *)
(* a crash (a negative code, or the magic one) counts as 2 *)
Code(rc) == IF rc < 0 \/ rc = 62097 THEN 2 ELSE rc
Tolerated(c, t, i, rc) == c.cmds[t][i] = -1 \/ Code(rc) <= c.cmds[t][i]
OnExit(c, s, t, rc, fs) ==
  LET bad == ~Tolerated(c, t, s.pc[t], rc)
  IN [Add(s, {}) EXCEPT !.cur = s.cur \ {t}, !.undel = s.undel \cup {t},
                        !.file = FoldLeft(LAMBDA f, x : [f EXCEPT ![x[1]] = x[2]], s.file, fs),
                        !.failed = s.failed \/ bad,
                        !.wiped = s.wiped \/ (t = c.goals[s.g] /\ \E i \in 1..Len(fs) : fs[i][1] # t /\ fs[i][1] \in s.reach),
                        !.st[t] = IF bad THEN "fail" ELSE IF s.pc[t] >= Len(c.cmds[t]) THEN "ok" ELSE "run"]
(* jom is told about it *)
OnDeath(c, s, t) ==
  [Add(s, {}) EXCEPT !.undel = s.undel \ {t},
                     !.aborted = s.aborted \/ (s.st[t] = "fail" /\ ~c.K)]

(* jom creates a job server with k tokens (own), or uses one that exists *)
OnServer(c, s, own, k) ==
  Add(s, If(own /\ (c.T = -1 \/ k # c.T), "tokencount"))
(* what the environment of a command says about the job server: the right one?, the number of jobs *)
OnHand(c, s, same, k) == Add(s, If(~same \/ k # c.H, "handoff"))

OnAcq(c, s) == [Add(s, If(s.pend > 0, "doublerequest")) EXCEPT !.pend = s.pend + 1]
OnGrant(c, s) == [Add(s, {}) EXCEPT !.pend = s.pend - 1, !.held = s.held + 1]
OnRel(c, s, k) ==
  LET h == s.held - k
  IN [Add(s, If(h < Cardinality(s.cur) - 1 \/ h < 0 - s.pend, "overrelease")) EXCEPT !.held = h]

(* jom waits for something to happen *)
Waiting(c, s) ==
  LET e == Eval(c, s)
      act == Active(c, s)
      open == {t \in s.reach : s.st[t] = "idle" /\ t \in e.ready /\ t \in e.must /\ t \notin e.badM}
  IN IF s.aborted \/ s.undel # {} THEN {}
     ELSE    If(open # {} /\ Cardinality(act) < c.J /\ s.pend = 0, "capacity")
        \cup If(\E t \in act : t \notin s.cur, "stuck")
        \cup If(s.cur = {} /\ s.pend = 0, "stuck")
        \cup If(s.held > Max2(0, Cardinality(act) - 1), "hoard")
OnIdle(c, s) == Add(s, Waiting(c, s))

(* jom ends *)
ExpectedRc(c, s) == IF s.aborted THEN 2 ELSE IF s.failed THEN (IF c.K THEN 1 ELSE 2) ELSE 0
OnEnd(c, s0, how, rc, run) ==
  LET s == IF s0.aborted THEN s0 ELSE Advance(c, s0)
      done == s.g >= Len(c.goals) /\ Complete(c, s)
      v == IF how = "hang" THEN {"hang"}
           ELSE IF how # "exit" THEN {"crash"}
           ELSE    If(run # 0 \/ s.cur # {}, "orphan")
              \cup If(s.held # 0, "tokens") \cup If(s.pend # 0, "pending")
              \cup If(rc # ExpectedRc(c, s), IF s.failed THEN "failstatus" ELSE "status")
              \cup If(rc = 0 /\ ~done, "incomplete")
              \cup If(c.K /\ s.failed /\ ~done, "kincomplete")
              \cup If(~s.failed /\ Active(c, s) # {}, "unfinished")
  IN Add(s, v)
=============================================================================
