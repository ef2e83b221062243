------------------------------ MODULE Scheduler ------------------------------
(* A model of jom's scheduler, in the shape of the implementation: a build     *)
(* graph whose leaves are taken, a pool of executors, one pending request for  *)
(* a job token, queued scheduling steps, and the abort path.  Exec.tla judges  *)
(* every step: the state m is the judge's, the other variables are jom's.      *)
(*                                                                             *)
(* The constants switch defects on, to show that the rules notice them:        *)
(*   DoubleRelease  the abort path returns a token for the pending request     *)
(*   NoDrain        the abort path waits for commands, not for recipes         *)
(*   EarlyLeaf      a node becomes a leaf when its last dependent has started  *)
(*   LostKick       no scheduling step after a recipe has ended                *)
(*   NoRequest      an executor is used without a token                        *)
(*   HoldToken      the token is not returned after the recipe                 *)
(*   StaleStamp     the time stamp of a rebuilt dependent is the old one       *)
EXTENDS Exec, TLC
CONSTANTS Configs, Tokens, MaxFail, MaxExt, Defect
VARIABLES c, m, graph, exec, unb, next, acq, acquiring, kick, phase, pool, ext, rc, nfail
vars == <<c, m, graph, exec, unb, next, acq, acquiring, kick, phase, pool, ext, rc, nfail>>
(* what the judge counts is no part of the state *)
view == <<c, [m EXCEPT !.l = 0], graph, exec, unb, next, acq, acquiring, kick, phase, pool, ext, rc, nfail>>

Targets(g) == {t \in Reach(c, g) : ~c.isfile[t]}
Children(t) == (Range0(c.deps[t]) \cup Range0(c.sync[t]))
Leaf(g, ex, t) == t \in g /\ Children(t) \cap (IF Defect = "EarlyLeaf" THEN g \ ex ELSE g) = {}
(* executors in use: an executor is free again only when jom knows that its recipe has ended *)
Busy == exec \ {next}
HasCmds(t) == Len(c.cmds[t]) > 0
Kids(t) == {x \in 1..c.n : t \in Children(x)}
RECURSIVE Ancestors(_)
Ancestors(t) == Kids(t) \cup UNION {Ancestors(x) : x \in Kids(t)}

(* remove up-to-date leaves, leaves without commands, and leaves that cannot be built *)
OutOfDate(t) ==
  IF Defect = "StaleStamp"
  THEN Eval(c, [m EXCEPT !.file = c.mt, !.pre = [x \in 1..c.n |-> TRUE]]).may
  ELSE Eval(c, m).may
RECURSIVE Prune(_)
Prune(g) ==
  LET ood == OutOfDate(0)
      r == {t \in g : Leaf(g, exec, t) /\ t \notin exec /\ (t \notin ood \/ ~HasCmds(t) \/ t \in unb)}
  IN IF r = {} THEN g ELSE Prune(g \ r)

Init ==
  /\ c \in Configs
  /\ m = Start0(c)
  /\ graph = {t \in Reach(c, c.goals[1]) : ~c.isfile[t]}
  /\ exec = {} /\ unb = {} /\ next = 0 /\ acq = 0 /\ acquiring = FALSE /\ kick = TRUE
  /\ phase = "build" /\ pool = Tokens /\ ext = MaxExt /\ rc = -1 /\ nfail = 0

StartRecipe(m0, t) ==
  /\ m' = OnStart(c, m0, t, 1)
  /\ next' = 0 /\ kick' = TRUE

Schedule ==
  /\ phase = "build" /\ kick
  /\ IF acquiring \/ Cardinality(Busy) >= c.J
     THEN kick' = FALSE /\ UNCHANGED <<m, graph, exec, unb, next, acq, acquiring, phase, rc>>
     ELSE LET g == IF next = 0 THEN Prune(graph) ELSE graph
              av == {t \in g : Leaf(g, exec, t) /\ t \notin exec}
          IN \E n \in (IF next # 0 THEN {next} ELSE IF av = {} THEN {0} ELSE av) :
             /\ graph' = IF n = 0 /\ Busy = {} /\ m.g < Len(c.goals) THEN Targets(c.goals[m.g + 1]) ELSE g
             /\ unb' = IF n = 0 /\ Busy = {} /\ m.g < Len(c.goals) THEN {} ELSE unb
             /\ IF n # 0
                THEN /\ exec' = exec \cup {n}
                     /\ IF Busy = {} \/ Defect = "NoRequest"
                        THEN StartRecipe(m, n) /\ UNCHANGED <<acq, acquiring>>
                        ELSE /\ acq' = acq + 1 /\ acquiring' = TRUE /\ next' = n
                             /\ m' = OnAcq(c, m) /\ kick' = FALSE
                     /\ UNCHANGED <<phase, rc>>
                ELSE IF Busy # {} THEN kick' = FALSE /\ UNCHANGED <<m, exec, next, acq, acquiring, phase, rc>>
                ELSE IF m.g < Len(c.goals)
                     THEN /\ m' = EnterGoal(c, m, m.g + 1) /\ exec' = {}
                          /\ kick' = TRUE /\ UNCHANGED <<next, acq, acquiring, phase, rc>>
                     ELSE /\ phase' = "done" /\ rc' = IF m.failed THEN 1 ELSE 0
                          /\ m' = OnEnd(c, m, "exit", rc', Cardinality(m.cur))
                          /\ kick' = FALSE /\ UNCHANGED <<exec, next, acq, acquiring>>
  /\ UNCHANGED <<c, pool, ext, nfail>>

Grant ==
  /\ acquiring /\ pool > 0 /\ phase # "done"
  /\ acquiring' = FALSE
  /\ LET m1 == OnGrant(c, m) IN
     IF phase = "build"
     THEN StartRecipe(m1, next) /\ pool' = pool - 1 /\ UNCHANGED <<acq>>
     ELSE IF Defect = "DoubleRelease" \/ acq > 0
          THEN m' = OnRel(c, m1, 1) /\ pool' = pool /\ acq' = Max2(0, acq - 1) /\ UNCHANGED <<next, kick>>
          ELSE m' = m1 /\ pool' = pool - 1 /\ UNCHANGED <<acq, next, kick>>
  /\ UNCHANGED <<c, graph, exec, unb, phase, ext, rc, nfail>>

(* a command ends; the recipe's own file is written by its last command *)
Now == 100 + Cardinality({t \in 1..c.n : m.file[t] >= 100})
ProcExit(t) ==
  /\ t \in m.cur
  /\ \E code \in (IF nfail < MaxFail THEN {0, 1, 2} ELSE {0, 1}) :
       /\ (code > 0 => c.cmds[t][m.pc[t]] # 0 \/ nfail < MaxFail)
       /\ nfail' = IF Tolerated(c, t, m.pc[t], code) THEN nfail ELSE nfail + 1
       /\ nfail' <= MaxFail
       /\ m' = OnExit(c, m, t, code, IF code = 0 /\ m.pc[t] = Len(c.cmds[t]) /\ c.touch[t] THEN <<<<t, Now>>>> ELSE <<>>)
  /\ UNCHANGED <<c, graph, exec, unb, next, acq, acquiring, kick, phase, pool, ext, rc>>

(* jom learns of it *)
Deliver(t) ==
  /\ t \in m.undel /\ phase # "done"
  /\ LET m1 == OnDeath(c, m, t) IN
     IF m.st[t] = "run"
     THEN /\ m' = OnStart(c, m1, t, m.pc[t] + 1)
          /\ UNCHANGED <<graph, exec, unb, next, acq, kick, phase, pool>>
     ELSE LET failed == m.st[t] = "fail"
              rel == acq > 0 /\ Defect # "HoldToken"
          IN /\ m' = IF rel THEN OnRel(c, m1, 1) ELSE m1
             /\ acq' = IF rel THEN acq - 1 ELSE acq
             /\ pool' = IF rel THEN pool + 1 ELSE pool
             /\ exec' = exec \ {t}
             /\ unb' = IF failed /\ c.K THEN unb \cup Ancestors(t) ELSE unb
             /\ kick' = (kick \/ Defect # "LostKick")
             /\ IF failed /\ ~c.K /\ phase = "build"
                THEN phase' = "drain" /\ graph' = {} /\ UNCHANGED next
                ELSE graph' = graph \ {t} /\ UNCHANGED <<phase, next>>
  /\ UNCHANGED <<c, acquiring, ext, rc, nfail>>

(* the abort path: every recipe has ended and no token is awaited *)
Drained ==
  /\ phase = "drain" /\ ~acquiring
  /\ IF Defect = "NoDrain" THEN m.cur = {} \/ \E t \in Busy : m.pc[t] > 1 ELSE Busy = {}
  /\ m.undel = {} \/ Defect = "NoDrain"
  /\ phase' = "done" /\ rc' = 2
  /\ m' = OnEnd(c, m, "exit", 2, Cardinality(m.cur))
  /\ UNCHANGED <<c, graph, exec, unb, next, acq, acquiring, kick, pool, ext, nfail>>

(* other jom processes that use the same tokens *)
Take == pool > 0 /\ ext > 0 /\ pool' = pool - 1 /\ ext' = ext - 1
        /\ UNCHANGED <<c, m, graph, exec, unb, next, acq, acquiring, kick, phase, rc, nfail>>
Give == ext < MaxExt /\ pool' = pool + 1 /\ ext' = ext + 1
        /\ UNCHANGED <<c, m, graph, exec, unb, next, acq, acquiring, kick, phase, rc, nfail>>

Next == Schedule \/ Grant \/ Drained \/ Take \/ Give \/ \E t \in 1..c.n : ProcExit(t) \/ Deliver(t)
Spec == Init /\ [][Next]_vars
(* commands end, tokens that others hold come back, and a token that is there often enough is granted *)
Fairness == /\ WF_vars(Schedule) /\ SF_vars(Grant) /\ WF_vars(Drained) /\ WF_vars(Give)
            /\ WF_vars(\E t \in 1..c.n : ProcExit(t)) /\ WF_vars(\E t \in 1..c.n : Deliver(t))
FairSpec == Spec /\ Fairness

NoRuleBroken == m.viol = {}
WaitsForAReason == (phase = "build" /\ ~kick) => Waiting(c, m) = {}
(* no token is lost or invented: the pool, jom and the others together *)
Conserved == pool + m.held + (MaxExt - ext) = Tokens
Terminates == <>(phase = "done")
=============================================================================
