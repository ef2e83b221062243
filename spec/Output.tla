------------------------------- MODULE Output ------------------------------
(* What jom prints while it builds (C11, C12).                                 *)
(* In.t[t][i] is command i of target t: echo (is its line printed), o and e     *)
(* (how many pieces it writes to stdout and stderr), fails.                    *)
(* quiet: jom does not start a process for it, but may print its line.         *)
(* Events: "s" a command starts, "d" jom learns that it has ended, "w" pieces   *)
(* a..b of command i of target t appear on stream s (1: stdout, 2: stderr).     *)
(* "i" jom waits, and nothing is on its way to it: w is what each of the running *)
(* commands has written so far.                                                *)
(* Piece 0 on stdout is the echoed line; on stderr the piece after the last    *)
(* one is the error message of a command that fails.  t = 0: something that     *)
(* belongs to no command (junk).                                               *)
EXTENDS Cases
VARIABLES l, at, live, running, ended, over, broken, last, viol
ovars == <<id, decided, l, at, live, running, ended, over, broken, last, viol>>
T == 1..Len(In.t)
Cmd(t, i) == In.t[t][i]
First(t, i, s) == IF s = 1 /\ Cmd(t, i).echo THEN 0 ELSE 1
Final(t, i, s) == IF s = 1 THEN Cmd(t, i).o ELSE Cmd(t, i).e + (IF Cmd(t, i).fails THEN 1 ELSE 0)
(* the place p = <<i, n>> of the next piece; commands without (further) pieces are passed over *)
RECURSIVE Norm(_, _, _)
Norm(t, s, p) == IF p[1] > Len(In.t[t]) \/ p[2] <= Final(t, p[1], s) THEN p
                 ELSE IF p[1] = Len(In.t[t]) THEN <<p[1] + 1, 0>>
                 ELSE Norm(t, s, <<p[1] + 1, First(t, p[1] + 1, s)>>)
E == Obs.ev[l + 1]
Rest == UNCHANGED <<id, decided>> /\ l' = l + 1
Finished(t) == t \in over
IsMsg(t, i, s, n) == s = 2 /\ n = Cmd(t, i).e + 1
OnStart == /\ running' = running \cup {<<E.t, E.i>>} /\ UNCHANGED <<at, live, ended, over, broken, last, viol>> /\ Rest
OnEnd == /\ running' = running \ {<<E.t, E.i>>} /\ ended' = ended \cup {<<E.t, E.i>>}
         /\ over' = IF Cmd(E.t, E.i).fails \/ \A j \in E.i + 1..Len(In.t[E.t]) : Cmd(E.t, j).quiet THEN over \cup {E.t} ELSE over
         /\ UNCHANGED <<at, live, broken, last, viol>> /\ Rest
OnWrite ==
  IF E.t = 0 THEN viol' = viol \cup {"junk"} /\ UNCHANGED <<at, live, running, ended, over, broken, last>> /\ Rest
  ELSE
  LET t == E.t  i == E.i  c == <<t, i>>
      right == at[t][E.s] = <<i, E.a>> /\ E.b <= Final(t, i, E.s) /\ E.b >= E.a
      \* shown before the command has ended: this is the recipe whose output is passed through
      through == c \notin ended /\ ~Cmd(t, i).quiet
      clash == through /\ live # 0 /\ live # t /\ ~Finished(live)
      own == ~IsMsg(t, i, E.s, E.a) /\ ~Cmd(t, i).quiet
      again == own /\ c \in broken[E.s]
      \* jom may go on passing through what is left after it has noticed that the command ended
      now == IF through \/ (again /\ (live = 0 \/ Finished(live))) THEN t ELSE live
      \* a command that is not the one passed through comes in one piece
      split == again /\ now # t
      before == last[E.s]
  IN /\ at' = [at EXCEPT ![t][E.s] = IF right THEN Norm(t, E.s, <<i, E.b + 1>>) ELSE @]
     /\ live' = now
     /\ broken' = IF before # c /\ before # <<0, 0>> /\ own THEN [broken EXCEPT ![E.s] = @ \cup {before}] ELSE broken
     /\ last' = IF own THEN [last EXCEPT ![E.s] = c] ELSE last
     /\ viol' = viol \cup If(~right, "sequence") \cup If(clash, "mixed") \cup If(split, "interrupted")
     /\ UNCHANGED <<running, ended, over>> /\ Rest
(* everything that commands that have ended printed is there; after a build without errors, all of it *)
Lost(t, s) == (Obs.rc = 0 /\ at[t][s][1] <= Len(In.t[t])) \/ \E i \in 1..Len(In.t[t]) : <<t, i>> \in ended /\ at[t][s][1] <= i
Finally == If(\E t \in T, s \in 1..2 : Lost(t, s), "lost") \cup If(Obs.how # "exit", "crash")
(* one of the running recipes is the live one: all that it has written so far is there *)
Shown(t, i, s, n) == n = 0 \/ at[t][s][1] > i \/ (at[t][s][1] = i /\ at[t][s][2] > n)
OnIdle == /\ viol' = viol \cup If(\A w \in ToSet(E.w) : ~(Shown(w.t, w.i, 1, w.o) /\ Shown(w.t, w.i, 2, w.e)), "held")
          /\ UNCHANGED <<at, live, running, ended, over, broken, last>> /\ Rest
Init == /\ Start /\ l = 0 /\ at = [t \in T |-> [s \in 1..2 |-> Norm(t, s, <<1, First(t, 1, s)>>)]]
        /\ live = 0 /\ running = {} /\ ended = {} /\ over = {} /\ broken = [s \in 1..2 |-> {}] /\ last = [s \in 1..2 |-> <<0, 0>>] /\ viol = {}
Next == \/ ~decided /\ l < Len(Obs.ev) /\ (CASE E.e = "s" -> OnStart [] E.e = "d" -> OnEnd [] E.e = "i" -> OnIdle [] OTHER -> OnWrite)
        \/ ~decided /\ l = Len(Obs.ev) /\ Decide(viol \cup Finally) /\ UNCHANGED <<l, at, live, running, ended, over, broken, last, viol>>
        \/ decided /\ UNCHANGED ovars
CaseSpec == Init /\ [][Next]_ovars
=============================================================================
