------------------------------ MODULE JobServer ------------------------------
(* Several jom processes that share the tokens of one job server.  Each keeps  *)
(* the rule that Exec.tla checks on recorded runs ("untokened": it runs at     *)
(* most one command more than it holds tokens) and returns all tokens before   *)
(* it ends ("tokens").  Together they never run more than J commands; a nested *)
(* jom stands for the command its parent started, so it is not counted itself. *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS P, J, Defect
VARIABLES pool, held, cur, parent
vars == <<pool, held, cur, parent>>
Proc == 1..P
Root == 1
NONE == -1
Alive(p) == parent[p] # NONE
Kids(p) == {q \in Proc : parent[q] = p}
Running(p) == cur[p] + Cardinality(Kids(p))
Init == /\ pool = J - 1 /\ held = [p \in Proc |-> 0] /\ cur = [p \in Proc |-> 0]
        /\ parent = [p \in Proc |-> IF p = Root THEN 0 ELSE NONE]
MayStart(p) == Alive(p) /\ (Running(p) <= held[p] \/ (Defect = "NoRequest" /\ p = 2))
StartCmd(p) == MayStart(p) /\ cur' = [cur EXCEPT ![p] = @ + 1] /\ UNCHANGED <<pool, held, parent>>
EndCmd(p) == cur[p] > 0 /\ cur' = [cur EXCEPT ![p] = @ - 1] /\ UNCHANGED <<pool, held, parent>>
StartJom(p, q) == MayStart(p) /\ ~Alive(q) /\ parent' = [parent EXCEPT ![q] = p] /\ UNCHANGED <<pool, held, cur>>
EndJom(q) == /\ q # Root /\ Alive(q) /\ Running(q) = 0
             /\ (held[q] = 0 \/ Defect = "LeakToken")
             /\ held' = [held EXCEPT ![q] = 0]
             /\ parent' = [parent EXCEPT ![q] = NONE] /\ UNCHANGED <<pool, cur>>
Acquire(p) == Alive(p) /\ pool > 0 /\ held[p] < J /\ pool' = pool - 1 /\ held' = [held EXCEPT ![p] = @ + 1] /\ UNCHANGED <<cur, parent>>
Release(p) == held[p] > 0 /\ Running(p) <= held[p] /\ pool' = pool + 1 /\ held' = [held EXCEPT ![p] = @ - 1] /\ UNCHANGED <<cur, parent>>
Next == \E p \in Proc : StartCmd(p) \/ EndCmd(p) \/ EndJom(p) \/ Acquire(p) \/ Release(p) \/ \E q \in Proc : StartJom(p, q)
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
AtMostJ == Sum(cur, P) <= J
Conserved == pool + Sum(held, P) = J - 1
=============================================================================
