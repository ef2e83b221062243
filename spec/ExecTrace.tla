------------------------------ MODULE ExecTrace ------------------------------
(* Recorded runs of the real program, checked against Exec.tla.  Every trace   *)
(* is one line of behaviour (the initial state chooses it), so the number of   *)
(* distinct states must be the number of events plus the number of traces.     *)
EXTENDS Exec, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACES)
Cfgs == Data.cfgs
Traces == Data.traces
VARIABLES tid, s
vars == <<tid, s>>
C == Cfgs[Traces[tid].c]
Ev == Traces[tid].ev
Init == \E i \in 1..Len(Traces) : tid = i /\ s = Start0(Cfgs[Traces[i].c])
Step(e) ==
  CASE e.a = "S" -> OnStart(C, s, e.t, e.i)
    [] e.a = "X" -> OnExit(C, s, e.t, e.rc, e.fs)
    [] e.a = "D" -> OnDeath(C, s, e.t)
    [] e.a = "N" -> OnServer(C, s, e.own, e.k)
    [] e.a = "H" -> OnHand(C, s, e.same, e.k)
    [] e.a = "Q" -> OnAcq(C, s)
    [] e.a = "G" -> OnGrant(C, s)
    [] e.a = "R" -> OnRel(C, s, e.k)
    [] e.a = "I" -> OnIdle(C, s)
    [] e.a = "E" -> OnEnd(C, s, e.how, e.rc, e.run)
Next == /\ s.l < Len(Ev)
        /\ LET n == Step(Ev[s.l + 1])
           IN /\ s' = n
              /\ (n.l = Len(Ev) /\ n.viol # {} => PrintT(<<"@V", tid, n.viol>>))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
