------------------------------- MODULE Recipe -------------------------------
(* The working directory and the environment of commands (C14, C25).           *)
(*                                                                             *)
(* A case gives the environment jom is started with, the macro definitions on  *)
(* the command line and in the makefile, and recipes.  Its observation is the  *)
(* sequence of commands that were started, each with its directory and its     *)
(* whole environment, and of the ends of commands that jom has learned about.  *)
(* 'cd' and 'set' do not start a process: they take effect when their turn in  *)
(* the recipe comes, which is when the command before them has ended or, for   *)
(* the first ones, together with the start of the first command of the recipe. *)
(* Recipes without any process are only used where the order of the targets is *)
(* total (In.chain), so that the moment they take effect is determined.        *)
EXTENDS Cases
VARIABLES l,        \* number of events looked at
          env,      \* name in lower case |-> value
          pos,      \* target |-> the next command
          dir,      \* target |-> the directory of its next command, as a sequence of names
          run,      \* targets with a running command
          failed,   \* a command has failed
          viol
rvars == <<id, decided, l, env, pos, dir, run, failed, viol>>

(* ---- macros and the initial environment of commands.  A value is a sequence *)
(* of <<"l", text>> and <<"r", macro name>>.                                   *)
RECURSIVE Text(_, _)
Text(mac, v) == IF v = <<>> THEN ""
                ELSE (IF v[1][1] = "l" THEN v[1][2]
                      ELSE IF v[1][2] \in DOMAIN mac THEN Text(mac, mac[v[1][2]].v) ELSE "") \o Text(mac, Tail(v))
(* a reference to the macro itself stands for its old value *)
RECURSIVE Own(_, _, _)
Own(mac, n, v) == IF v = <<>> THEN <<>>
                  ELSE (IF v[1] = <<"r", n>> THEN (IF n \in DOMAIN mac THEN mac[n].v ELSE <<>>) ELSE << v[1] >>) \o Own(mac, n, Tail(v))
Put(f, n, x) == [k \in DOMAIN f \cup {n} |-> IF k = n THEN x ELSE f[k]]
(* d: [n: name, up: the name in capitals, low: in small letters, v: value]      *)
CommandLine(st, d) ==
  LET m1 == Put(st.mac, d.n, [v |-> d.v, src |-> "cmdline"])
      m2 == IF d.n = d.up THEN m1 ELSE Put(m1, d.up, [v |-> d.v, src |-> "cmdline"])
  IN [mac |-> m2, env |-> Put(st.env, d.low, Text(m2, d.v))]
(* an environment variable with a faulty macro reference (d.bad) is no macro,  *)
(* and neither is one whose name cannot be that of a macro                     *)
Inherit(st, d) ==
  IF d.up \in DOMAIN st.mac \/ d.bad THEN st
  ELSE [mac |-> Put(st.mac, d.up, [v |-> d.v, src |-> "env"]), env |-> Put(st.env, d.low, Text(st.mac, d.v))]
(* In.e: the option /E *)
InMakefile(st, d) ==
  IF d.n \in DOMAIN st.mac /\ (st.mac[d.n].src = "cmdline" \/ (st.mac[d.n].src = "env" /\ In.e)) THEN st
  ELSE LET v == Own(st.mac, d.n, d.v)
           isenv == d.n \in DOMAIN st.mac /\ st.mac[d.n].src = "env"
           m == Put(st.mac, d.n, [v |-> v, src |-> IF isenv THEN "env" ELSE "file"])
       IN [mac |-> m, env |-> IF isenv THEN Put(st.env, d.low, Text(m, v)) ELSE st.env]
RECURSIVE Fold(_, _, _)
Fold(how, st, ds) == IF ds = <<>> THEN st
                     ELSE Fold(how, CASE how = "cmdline" -> CommandLine(st, ds[1])
                                      [] how = "env" -> Inherit(st, ds[1])
                                      [] OTHER -> InMakefile(st, ds[1]), Tail(ds))
Raw == [k \in {In.env[i].low : i \in 1..Len(In.env)} |->
          LET d == In.env[CHOOSE i \in 1..Len(In.env) : In.env[i].low = k] IN d.raw]
AtStart == Fold("file", Fold("env", Fold("cmdline", [mac |-> [k \in {} |-> <<>>], env |-> Raw], In.cmdline), In.env), In.defs).env

(* ---- recipes.  Command: [k |-> "x"] starts a process; [k |-> "set", n, v];   *)
(* [k |-> "cd", path |-> sequence of names and ".."]; [k |-> "none"] has no effect. *)
(* tol: the exit code it tolerates.                                            *)
T == DOMAIN In.recipes
Cmd(t, i) == In.recipes[t][i]
RECURSIVE Walk(_, _)
Walk(d, path) == IF path = <<>> THEN d
                 ELSE Walk(IF path[1] = ".." THEN SubSeq(d, 1, Len(d) - 1) ELSE Append(d, path[1]), Tail(path))
IsDir(d) == d = <<>> \/ \E i \in 1..Len(In.dirs) : In.dirs[i] = d
(* performs what stands before the next process of the recipe of t; s is [env, pos, dir, failed] *)
RECURSIVE Go(_, _)
Go(t, s) ==
  IF s.pos[t] > Len(In.recipes[t]) \/ Cmd(t, s.pos[t]).k = "x" THEN s
  ELSE LET c == Cmd(t, s.pos[t])
           n == [s EXCEPT !.pos[t] = @ + 1] IN
       CASE c.k = "set" -> Go(t, [n EXCEPT !.env = Put(@, c.n, c.v)])
         [] c.k = "cd" -> (LET d == Walk(s.dir[t], c.path) IN
                           IF IsDir(d) THEN Go(t, [n EXCEPT !.dir[t] = d])
                           ELSE IF c.tol > 0 THEN Go(t, n)
                           ELSE [s EXCEPT !.pos[t] = Len(In.recipes[t]) + 1, !.failed = TRUE])
         [] OTHER -> Go(t, n)
State == [env |-> env, pos |-> pos, dir |-> dir, failed |-> failed]
(* with a total order of the targets (T in this order): everything before t is done *)
RECURSIVE Before(_, _, _)
Before(k, t, s) == IF k >= t \/ s.failed \/ ~In.chain THEN s ELSE Before(k + 1, t, IF s.pos[k] > Len(In.recipes[k]) THEN s ELSE Go(k, s))

Become(s, bad, running) ==
  /\ env' = s.env /\ pos' = s.pos /\ dir' = s.dir /\ failed' = s.failed
  /\ viol' = viol \cup bad /\ run' = running /\ l' = l + 1
  /\ UNCHANGED <<id, decided>>
E == Obs.ev[l + 1]
(* the variables a 'set' in the makefile is about, and those for nested jom processes *)
Sets == UNION {{In.recipes[t][i].n : i \in {j \in 1..Len(In.recipes[t]) : In.recipes[t][j].k = "set"}} : t \in T}
Own2 == {"_jomsrvkey_", "_jomjobcount_"}
(* a variable without a value is still there *)
Differ(want, got) == {n \in (DOMAIN want \cup DOMAIN got) \ Own2 : n \notin DOMAIN want \/ n \notin DOMAIN got \/ want[n] # got[n]}
OnSpawn ==
  LET t == E.t
      s == Go(t, Before(1, t, State))
      d == Differ(s.env, E.env) IN
  Become([s EXCEPT !.pos[t] = E.i + 1],
         If(failed /\ pos[t] = 1, "afterfail") \cup If(s.pos[t] # E.i, "sequence")
         \cup If(s.dir[t] # E.cwd, "cwd") \cup If(d \cap Sets # {}, "set") \cup If(d \ Sets # {}, "env"),
         run \cup {t})
OnDeath ==
  LET t == E.t IN
  IF t \notin run THEN Become(State, {"sequence"}, run)
  ELSE IF E.rc > Cmd(t, E.i).tol
  THEN Become([State EXCEPT !.pos[t] = Len(In.recipes[t]) + 1, !.failed = TRUE], {}, run \ {t})
  ELSE Become(Go(t, State), {}, run \ {t})
Finally == LET s == IF In.chain THEN Before(1, Len(In.recipes) + 1, State) ELSE State IN
     If(Obs.rc # (IF s.failed THEN 2 ELSE 0), "status")
  \cup If(run # {}, "running")
  \cup If(~s.failed /\ \E t \in T : s.pos[t] <= Len(In.recipes[t]), "incomplete")
Init == /\ Start /\ l = 0 /\ env = AtStart /\ pos = [t \in T |-> 1] /\ dir = [t \in T |-> <<>>]
        /\ run = {} /\ failed = FALSE /\ viol = {}
Next == \/ ~decided /\ l < Len(Obs.ev) /\ (IF E.e = "s" THEN OnSpawn ELSE OnDeath)
        \/ ~decided /\ l = Len(Obs.ev) /\ Decide(viol \cup Finally) /\ UNCHANGED <<l, env, pos, dir, run, failed, viol>>
        \/ decided /\ UNCHANGED rvars
CaseSpec == Init /\ [][Next]_rvars
=============================================================================
