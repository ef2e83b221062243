----------------------------- MODULE SchedulerMC -----------------------------
(* Small configurations for Scheduler.tla: every graph over N nodes.           *)
EXTENDS Scheduler, IOUtils
CONSTANTS N, Js, Ks, MaxCmds, Stamps, WithSync
Seqs(S) == LET RECURSIVE f(_)
               f(k) == IF k = 0 THEN <<>> ELSE IF k \in S THEN Append(f(k - 1), k) ELSE f(k - 1)
           IN f(N)
Below(t) == SUBSET (1..(t - 1))
DepFns == {f \in [1..N -> SUBSET (1..N)] : \A t \in 1..N : f[t] \subseteq 1..(t - 1)}
CmdFns == [1..N -> 0..MaxCmds]
MtFns == [1..N -> Stamps]
Mk(d, y, k, t, j, kk, a, tol, gl) ==
  [n |-> N, deps |-> [i \in 1..N |-> Seqs(d[i])], sync |-> [i \in 1..N |-> Seqs(y[i])],
   isfile |-> [i \in 1..N |-> FALSE], cmds |-> [i \in 1..N |-> [q \in 1..k[i] |-> tol]],
   goals |-> gl, J |-> j, T |-> j - 1, H |-> j, K |-> kk, A |-> a, mt |-> t, touch |-> [i \in 1..N |-> i % 2 = 1 \/ t[i] # 0]]
NoSync == [i \in 1..N |-> {}]
Goals == {<<N>>} \cup (IF N > 2 THEN {<<1, N>>} ELSE {})
AllConfigs ==
  {Mk(d, NoSync, k, t, j, kk, FALSE, 0, gl) :
     d \in DepFns, k \in CmdFns, t \in MtFns, j \in Js, kk \in Ks, gl \in {<<N>>}}
MultiGoal == {Mk(d, NoSync, k, t, j, kk, FALSE, 0, gl) :
     d \in DepFns, k \in [1..N -> 1..1], t \in MtFns, j \in Js, kk \in Ks, gl \in {<<1, N>>, <<2, 1>>}}
Tolerant == {Mk(d, NoSync, k, t, j, kk, a, 1, <<N>>) :
     d \in DepFns, k \in [1..N -> {MaxCmds}], t \in [1..N -> {0}], j \in Js, kk \in Ks, a \in BOOLEAN}
Synced == {Mk(d, y, k, t, j, FALSE, FALSE, 0, <<N>>) :
     d \in {f \in DepFns : f[N] = 1..(N - 1)}, y \in {f \in DepFns : f[N] = {}}, k \in [1..N -> 1..1], t \in MtFns, j \in Js}
Which == IOEnv.WHICH
TheConfigs == CASE Which = "all" -> AllConfigs [] Which = "goals" -> MultiGoal
                [] Which = "tolerant" -> Tolerant [] Which = "sync" -> Synced
=============================================================================
