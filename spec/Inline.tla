------------------------------- MODULE Inline -------------------------------
(* Inline files (C15).                                                         *)
(*                                                                             *)
(* A case gives recipes whose commands have inline files: a name (or none),    *)
(* the text, and whether the file is kept.  The observation is the sequence of *)
(* starts and ends of commands, each with name and content of the files that   *)
(* its command line names at that moment, and what is there after jom's end.   *)
(* The state machine follows which names are in use and what the files hold.   *)
(*                                                                             *)
(* In.targets: [name, root, deps (names), src, own (one commands sequence)]    *)
(* a command: [files, fails, bang, dir]; a file: [name, text, keep]; a name    *)
(* and a line are sequences of pieces; a line is [on, l]; piece << kind, x >>: *)
(*   "t" text   "r" macro x   "f" file name macro x                            *)
EXTENDS Cases
VARIABLES l, inuse, disk, live, done, bad, viol
\* l: events looked at; inuse: target |-> generated names of its recipe; disk: path |-> [c: content, keep]
\* live: process |-> what it was started with; done: target |-> commands started; bad: a command has failed
vars == <<id, decided, l, inuse, disk, live, done, bad, viol>>
T == 1..Len(In.targets)
Tg(t) == In.targets[t]
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o " " \o Join(Tail(s))
\* lt: the sources of a batch command (or << the source >>), dp: the dependents that $** stands for
Piece(p, t, lt, dp) ==
  CASE p[1] = "t" -> p[2]
    [] p[1] = "r" -> (IF p[2] \in DOMAIN In.macros THEN In.macros[p[2]] ELSE "")
    [] OTHER -> CASE p[2] = "@" -> Tg(t).name [] p[2] = "*" -> Tg(t).root [] p[2] = "<" -> lt [] OTHER -> dp
RECURSIVE Text(_, _, _, _)
Text(ps, t, lt, dp) == IF ps = <<>> THEN "" ELSE Piece(ps[1], t, lt, dp) \o Text(Tail(ps), t, lt, dp)
RECURSIVE Lines(_, _, _, _)
Lines(ls, t, lt, dp) == IF ls = <<>> THEN ""
                        ELSE (IF ls[1].on THEN Text(ls[1].l, t, lt, dp) \o "\r\n" ELSE "") \o Lines(Tail(ls), t, lt, dp)
Path(dir, n) == IF dir = "" THEN n ELSE dir \o "\\" \o n
Temp(n) == Len(n) > 2 /\ SubSeq(n, 1, 2) = "T:"

E == Obs.ev[l + 1]
Cmd(t, i) == Tg(t).cmds[i]
Put(f, k, x) == [z \in DOMAIN f \cup {k} |-> IF z = k THEN x ELSE f[z]]
\* the state of the disk when the files fs of the event have been written for command c
RECURSIVE Written(_, _, _, _)
Written(d, c, fs, k) ==
  IF k > Len(fs) \/ k > Len(c.files) THEN d
  ELSE Written(Put(d, IF Temp(fs[k][1]) THEN fs[k][1] ELSE Path(c.dir, fs[k][1]), [c |-> fs[k][2], keep |-> c.files[k].keep]), c, fs, k + 1)
OnStart ==
  LET t == E.t
      c == Cmd(t, E.i)
      lt == IF E.lt = <<>> THEN Tg(t).src ELSE Join(E.lt)
      dp == IF c.bang /\ E.k <= Len(Tg(t).deps) THEN Tg(t).deps[E.k] ELSE Join(Tg(t).deps)
      n == Len(c.files)
      gen == {E.files[k][1] : k \in {j \in 1..Len(E.files) : j <= n /\ c.files[j].name = <<>>}}
      used == UNION {inuse[x] : x \in T}
      kept == {p \in DOMAIN disk : Temp(p) /\ disk[p].keep}
      unnamed == Cardinality({k \in 1..n : c.files[k].name = <<>>})
  IN /\ viol' = viol
        \cup If(Len(E.files) # n, "count")
        \cup If(\E k \in 1..Len(E.files) : k <= n /\ c.files[k].name # <<>> /\ E.files[k][1] # Text(c.files[k].name, t, lt, dp), "name")
        \cup If(\E k \in 1..Len(E.files) : k <= n /\ c.files[k].name = <<>> /\ ~Temp(E.files[k][1]), "name")
        \cup If(gen \cap (used \cup kept) # {} \/ Cardinality(gen) < unnamed, "shared")
        \cup If(\E k \in 1..Len(E.files) : k <= n /\ E.files[k][2] # Lines(c.files[k].text, t, lt, dp), "content")
        \cup If(c.fails = "open", "opened")
        \cup If(E.lt # <<>> /\ \E k \in 1..Len(E.lt) : E.lt[k] \notin {Tg(x).src : x \in T}, "content")
     /\ inuse' = [inuse EXCEPT ![t] = @ \cup gen]
     /\ disk' = Written(disk, c, E.files, 1)
     /\ live' = Put(live, E.p, [t |-> t, i |-> E.i, k |-> E.k, files |-> E.files])
     /\ done' = [x \in T |-> IF x \in {t} \cup {y \in T : E.lt # <<>> /\ \E k \in 1..Len(E.lt) : Tg(y).src = E.lt[k]} THEN E.i ELSE done[x]]
     /\ UNCHANGED bad
OnEnd ==
  LET s == live[E.p]
      c == Cmd(s.t, s.i)
      last == E.rc # 0 \/ (s.i = Len(Tg(s.t).cmds) /\ (~c.bang \/ s.k = Len(Tg(s.t).deps)))
  IN IF E.p \notin DOMAIN live THEN viol' = viol \cup {"sequence"} /\ UNCHANGED <<inuse, disk, live, done, bad>>
     ELSE /\ viol' = viol \cup If(E.files # s.files, "early")          \* the files were there, unchanged, until now
          /\ inuse' = (IF last THEN [inuse EXCEPT ![s.t] = {}] ELSE inuse)
          /\ bad' = (bad \/ E.rc # 0)
          /\ UNCHANGED <<disk, live, done>>
Opens == \E t \in T : \E i \in 1..Len(Tg(t).cmds) : Cmd(t, i).fails = "open"
Finally ==
  LET keep == {p \in DOMAIN disk : disk[p].keep}
      gone == DOMAIN disk \ keep
      left == {Obs.left[i][1] : i \in 1..Len(Obs.left)}
      now(p) == Obs.left[CHOOSE i \in 1..Len(Obs.left) : Obs.left[i][1] = p][2]
      full == ~bad /\ ~Obs.ctrlc /\ ~Opens
  IN If(Obs.how \notin {"exit"}, "crash")
     \cup If(~Opens /\ \E p \in keep : p \notin left \/ now(p) # disk[p].c, "lost")
     \cup If(gone \cap left # {}, "left")
     \cup If(~Opens /\ \E p \in left : p \notin DOMAIN disk /\ ~(\E i \in 1..Len(In.known) : In.known[i] = p), "litter")
     \cup If(full /\ Obs.rc # 0, "status")
     \cup If(~full /\ Obs.rc = 0, "status")
     \cup If(full /\ \E t \in T : done[t] # Len(Tg(t).cmds), "unbuilt")
Init == /\ Start /\ l = 0 /\ inuse = [t \in T |-> {}] /\ disk = <<>> /\ live = <<>> /\ done = [t \in T |-> 0] /\ bad = FALSE /\ viol = {}
Next == \/ ~decided /\ l < Len(Obs.ev) /\ l' = l + 1 /\ (IF E.e = "s" THEN OnStart ELSE OnEnd) /\ UNCHANGED <<id, decided>>
        \/ ~decided /\ l = Len(Obs.ev) /\ Decide(viol \cup Finally) /\ UNCHANGED <<l, inuse, disk, live, done, bad, viol>>
        \/ decided /\ UNCHANGED vars
CaseSpec == Init /\ [][Next]_vars
=============================================================================
