------------------------------ MODULE Makefile ------------------------------
(* What the text of a makefile means (C26, C27).  A case gives the physical    *)
(* lines of a makefile, the files that exist, and the goals.  The lines are    *)
(* joined to logical lines, these are macro definitions, dependency lines and  *)
(* commands, and the description blocks add up to targets with dependents and  *)
(* commands.  All targets are built regardless of time stamps, so that the     *)
(* commands that run tell the targets, the dependents and the commands; the    *)
(* words $@ and $** in a command tell the names.                               *)
EXTENDS Cases
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Between(s, i, j) == IF j < i THEN "" ELSE SubSeq(s, i, j)
Blank == {" ", "\t"}
White == {" ", "\t", "\n", "\f"}
Alpha == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
          "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerOf == [c \in {Upper[i] : i \in 1..26} |-> Lower[CHOOSE i \in 1..26 : Upper[i] = c]]
RECURSIVE Low(_)
Low(s) == IF s = "" THEN "" ELSE (IF At(s, 1) \in DOMAIN LowerOf THEN LowerOf[At(s, 1)] ELSE At(s, 1)) \o Low(From(s, 2))
RECURSIVE LTrim(_)
LTrim(s) == IF At(s, 1) \in White THEN LTrim(From(s, 2)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF At(s, Len(s)) \in White THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))

(* ---- physical lines to logical lines.  cont: what the end of the line asks for *)
Physical(s) ==
  LET n == Len(s) IN
  IF At(s, n) = "\\" THEN
       IF At(s, n - 1) = "^" THEN [t |-> SubSeq(s, 1, n - 2) \o "\\", cont |-> ""]
       ELSE IF At(s, n - 1) = "\\" THEN [t |-> s, cont |-> ""]
       ELSE [t |-> SubSeq(s, 1, n - 1), cont |-> " "]
  ELSE IF At(s, n) = "^" THEN [t |-> SubSeq(s, 1, n - 1), cont |-> "\n"]
  ELSE [t |-> s, cont |-> ""]
(* a line that starts with # is nowhere to be seen *)
RECURSIVE Logical(_, _, _)
Logical(ls, open, cont) ==
  IF ls = <<>> THEN (IF cont = "" THEN <<>> ELSE << open \o cont >>)
  ELSE IF At(ls[1], 1) = "#" THEN Logical(Tail(ls), open, cont)
  ELSE LET p == Physical(ls[1])
           t == IF cont = "" THEN p.t ELSE open \o cont \o LTrim(p.t)
       IN IF p.cont = "" THEN << t >> \o Logical(Tail(ls), "", "") ELSE Logical(Tail(ls), t, p.cont)

(* ---- references to macros; those to names of files are marked with a CR ---- *)
RECURSIVE FindC(_, _, _)
FindC(s, i, c) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = c THEN i ELSE FindC(s, i + 1, c)
RECURSIVE ExpandIn(_, _, _, _)
(* dep: in the list of dependents, where $$@ is a reference to the target *)
ExpandIn(m, s, i, dep) ==
  LET Expand(mm, ss, ii) == ExpandIn(mm, ss, ii, dep) IN
  LET d == FindC(s, i, "$") IN
  IF d = 0 \/ d = Len(s) THEN From(s, i)
  ELSE LET c == At(s, d + 1) IN
       Between(s, i, d - 1)
       \o (IF c = "(" /\ At(s, d + 2) # "@"
           THEN LET e == FindC(s, d + 2, ")")
                    n == Between(s, d + 2, e - 1)
                IN (IF n \in DOMAIN m THEN Expand(m, m[n], 1) ELSE "") \o Expand(m, s, e + 1)
           ELSE IF c \in Alpha THEN (IF c \in DOMAIN m THEN Expand(m, m[c], 1) ELSE "") \o Expand(m, s, d + 2)
           ELSE IF c = "$" THEN (IF dep /\ At(s, d + 2) = "@" THEN "\r@" \o Expand(m, s, d + 3) ELSE "$" \o Expand(m, s, d + 2))
           ELSE IF c = "*" THEN "\r**" \o Expand(m, s, d + 3)
           ELSE "\r" \o c \o Expand(m, s, d + 2))
Expand(m, s, i) == ExpandIn(m, s, i, FALSE)

(* ---- macro definitions: name = value; a colon before the = makes it something else *)
RECURSIVE Equals(_, _, _)
Equals(s, i, depth) ==
  IF i > Len(s) THEN 0
  ELSE LET c == At(s, i) IN
       IF c = "(" THEN Equals(s, i + 1, depth + 1)
       ELSE IF c = ")" THEN Equals(s, i + 1, depth - 1)
       ELSE IF depth = 0 /\ c = "=" THEN i
       ELSE IF depth = 0 /\ c = ":" THEN 0
       ELSE Equals(s, i + 1, depth)
IsDef(s) == At(s, 1) \in Alpha \cup Digit \cup {"_"} /\ Equals(s, 2, 0) > 0
(* up to the first # that is not quoted with ^ *)
RECURSIVE Uncomment(_)
Uncomment(s) == IF s = "" THEN ""
                ELSE IF At(s, 1) = "^" /\ At(s, 2) = "#" THEN "#" \o Uncomment(From(s, 3))
                ELSE IF At(s, 1) = "#" THEN ""
                ELSE At(s, 1) \o Uncomment(From(s, 2))
Own(m, n, v) == LET r == "$(" \o n \o ")" IN
  LET RECURSIVE Rep(_)
      Rep(s) == IF Len(s) < Len(r) THEN s
                ELSE IF SubSeq(s, 1, Len(r)) = r THEN (IF n \in DOMAIN m THEN m[n] ELSE "") \o Rep(From(s, Len(r) + 1))
                ELSE At(s, 1) \o Rep(From(s, 2))
  IN Rep(v)
Def(m, s) == LET e == Equals(s, 2, 0)
                 n == Trim(SubSeq(s, 1, e - 1))
                 v == Trim(Uncomment(Trim(From(s, e + 1))))
             IN (n :> Own(m, n, v)) @@ m

(* ---- dependency lines.  The scan finds what is special outside of quotes:   *)
(* the command after a semicolon, the comment, the colon(s).                   *)
RECURSIVE Scan(_, _, _, _)
(* [t: text before command or comment, with ^# resolved; cmd; has: is there a command] *)
Scan(s, i, quoted, t) ==
  IF i > Len(s) THEN [t |-> t, has |-> FALSE, cmd |-> ""]
  ELSE LET c == At(s, i) IN
       IF c = "\"" THEN Scan(s, i + 1, ~quoted, t \o c)
       ELSE IF c = "^" /\ At(s, i + 1) = "#" THEN Scan(s, i + 2, quoted, t \o "#")
       ELSE IF ~quoted /\ c = "#" THEN [t |-> t, has |-> FALSE, cmd |-> ""]
       ELSE IF ~quoted /\ c = ";" THEN [t |-> t, has |-> TRUE, cmd |-> Trim(From(s, i + 1))]
       ELSE Scan(s, i + 1, quoted, t \o c)
(* a colon after a single letter belongs to a drive *)
Drive(s, i) == At(s, i - 1) \in Alpha /\ (i = 2 \/ At(s, i - 2) \in White \cup {"\""})
RECURSIVE Colon(_, _, _)
Colon(s, i, depth) ==
  IF i > Len(s) THEN 0
  ELSE LET c == At(s, i) IN
       IF c = "(" THEN Colon(s, i + 1, depth + 1)
       ELSE IF c = ")" THEN Colon(s, i + 1, depth - 1)
       ELSE IF depth = 0 /\ c = ":" /\ ~Drive(s, i) THEN i
       ELSE Colon(s, i + 1, depth)
RECURSIVE Names(_, _, _)
(* names are separated by white space outside of quotes; the quotes around a name are not part of it *)
Unquoted(w) == IF w = "\"" THEN "" ELSE IF Len(w) >= 2 /\ At(w, 1) = "\"" /\ At(w, Len(w)) = "\"" THEN SubSeq(w, 2, Len(w) - 1) ELSE w
Word(w) == IF Unquoted(w) = "" THEN <<>> ELSE << Unquoted(w) >>
Names(s, w, quoted) ==
  IF s = "" THEN Word(w)
  ELSE LET c == At(s, 1) IN
       IF c = "\"" THEN Names(From(s, 2), w \o c, ~quoted)
       ELSE IF ~quoted /\ c \in White THEN Word(w) \o Names(From(s, 2), "", quoted)
       ELSE Names(From(s, 2), w \o c, quoted)
RECURSIVE Native(_)
Native(s) == IF s = "" THEN "" ELSE (IF At(s, 1) = "/" THEN "\\" ELSE At(s, 1)) \o Native(From(s, 2))
(* $$@ in a dependent is the target *)
RECURSIVE Dep(_, _)
Dep(s, target) == IF s = "" THEN "" ELSE IF At(s, 1) = "\r" /\ At(s, 2) = "@" THEN target \o Dep(From(s, 3), target) ELSE At(s, 1) \o Dep(From(s, 2), target)

(* ---- wildcards: a pattern is prefix*suffix; In.globs are the files beside and below the makefile ---- *)
Matches(p, n) == LET k == FindC(p, 1, "*")
                     a == SubSeq(p, 1, k - 1)
                     b == From(p, k + 1)
                 IN Len(n) >= Len(a) + Len(b) /\ SubSeq(n, 1, Len(a)) = a /\ From(n, Len(n) - Len(b) + 1) = b
                    /\ ~\E i \in Len(a) + 1..Len(n) - Len(b) : At(n, i) = "\\"
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN { <<>> } ELSE UNION {{<< x >> \o r : r \in Orders(S \ {x})} : x \in S}
Found(n) == IF FindC(n, 1, "*") = 0 THEN {n} ELSE {f \in {In.globs[i] : i \in 1..Len(In.globs)} : Matches(n, f)}
(* all the lists of names that a list with patterns can stand for *)
RECURSIVE Lists(_)
Lists(ns) == IF ns = <<>> THEN { <<>> }
             ELSE IF FindC(ns[1], 1, "*") = 0 THEN {<< ns[1] >> \o r : r \in Lists(Tail(ns))}
             ELSE {o \o r : o \in Orders(Found(ns[1])), r \in Lists(Tail(ns))}

(* ---- the makefile.  st: [ok, mac, tg: name in small letters |-> target, order: of the targets, cur: targets of the   *)
(* open block, kind]; target: [n, kind, deps, cmds, open: whether the open block adds its commands]  *)
NoTargets == [x \in {} |-> 0]
Empty == [ok |-> TRUE, mac |-> [x \in {} |-> ""], tg |-> NoTargets, order |-> <<>>, cur |-> <<>>, fresh |-> FALSE, why |-> ""]
AddTarget(st, n, kind, deps, cmds) ==
  LET k == Low(n)
      old == k \in DOMAIN st.tg
      t == IF old THEN st.tg[k] ELSE [n |-> n, kind |-> kind, deps |-> <<>>, cmds |-> <<>>]
      d == [i \in 1..Len(deps) |-> Dep(deps[i], t.n)]
      \* single-colon blocks: the commands of the first that has any
      adds == kind = "::" \/ ~old \/ t.cmds = <<>>
      u == [t EXCEPT !.deps = @ \o d, !.cmds = IF adds THEN @ \o cmds ELSE @]
  IN IF old /\ t.kind # kind THEN [st EXCEPT !.ok = FALSE, !.why = "kinds"]
     ELSE [st EXCEPT !.tg = (k :> u) @@ @, !.order = IF old THEN @ ELSE Append(@, k)]
RECURSIVE AddTargets(_, _, _, _, _)
AddTargets(st, ns, kind, deps, cmds) ==
  IF ns = <<>> \/ ~st.ok THEN st ELSE AddTargets(AddTarget(st, ns[1], kind, deps, cmds), Tail(ns), kind, deps, cmds)
IsCmd(l) == At(l, 1) \in Blank
(* the commands of a block: from line i on; [cmds, at, mac] *)
RECURSIVE Commands(_, _, _)
Commands(ls, m, cmds) ==
  IF ls = <<>> THEN [cmds |-> cmds, rest |-> ls, mac |-> m]
  ELSE IF Trim(ls[1]) = "" THEN Commands(Tail(ls), m, cmds)
  ELSE IF IsDef(ls[1]) THEN Commands(Tail(ls), Def(m, ls[1]), cmds)
  ELSE IF IsCmd(ls[1]) THEN Commands(Tail(ls), m, Append(cmds, Expand(m, Trim(ls[1]), 1)))
  ELSE [cmds |-> cmds, rest |-> ls, mac |-> m]
RECURSIVE Read(_, _)
Read(ls, st) ==
  IF ls = <<>> \/ ~st.ok THEN st
  ELSE LET l == ls[1] IN
       IF Trim(l) = "" THEN Read(Tail(ls), st)
       ELSE IF IsDef(l) THEN Read(Tail(ls), [st EXCEPT !.mac = Def(@, l)])
       ELSE IF Trim(Expand(st.mac, l, 1)) = "" THEN Read(Tail(ls), st)
       ELSE LET s == Scan(l, 1, FALSE, "")
                c == Colon(s.t, 1, 0)
                kind == IF At(s.t, c + 1) = ":" THEN "::" ELSE ":"
                ns == Names(Native(Expand(st.mac, SubSeq(s.t, 1, c - 1), 1)), "", FALSE)
                ds == Names(Native(ExpandIn(st.mac, Trim(From(s.t, c + Len(kind))), 1, TRUE)), "", FALSE)
                first == IF s.has THEN << Expand(st.mac, s.cmd, 1) >> ELSE <<>>
                \* an empty line right after the dependency line ends the block
                body == IF Len(ls) >= 2 /\ ls[2] = "" THEN [cmds |-> <<>>, rest |-> Tail(ls), mac |-> st.mac]
                        ELSE Commands(Tail(ls), st.mac, <<>>)
            IN IF IsCmd(l) \/ c = 0 THEN [st EXCEPT !.ok = FALSE, !.why = "syntax"]
               ELSE Read(body.rest, AddTargets([st EXCEPT !.mac = body.mac], ns, kind, ds, first \o body.cmds))

(* ---- building ---- *)
Deps(st, k) == UNION {Found(st.tg[k].deps[i]) : i \in 1..Len(st.tg[k].deps)}
Below(st, k) == {Low(n) : n \in Deps(st, k)} \cap DOMAIN st.tg
RECURSIVE Reach(_, _, _)
Reach(st, S, todo) == IF todo = {} THEN S
                      ELSE LET k == CHOOSE x \in todo : TRUE
                           IN Reach(st, S \cup {k}, (todo \cup Below(st, k)) \ (S \cup {k}))
Cyclic(st, goals) == \E g \in goals : \E k \in Reach(st, {}, {g}) : k \in Reach(st, {}, Below(st, k))
Exists(n) == \E i \in 1..Len(In.files) : Low(In.files[i]) = Low(n)
Missing(st, g) == \E k \in Reach(st, {}, {g}) : \E n \in Deps(st, k) : Low(n) \notin DOMAIN st.tg /\ ~Exists(n)
Quote(n) == IF FindC(n, 1, " ") > 0 \/ FindC(n, 1, "\t") > 0 THEN "\"" \o n \o "\"" ELSE n
RECURSIVE Joined(_)
Joined(ns) == IF ns = <<>> THEN "" ELSE IF Len(ns) = 1 THEN Quote(ns[1]) ELSE Quote(ns[1]) \o " " \o Joined(Tail(ns))
RECURSIVE Fill(_, _, _)
Fill(s, name, deps) ==
  LET d == FindC(s, 1, "\r") IN
  IF d = 0 THEN s
  ELSE IF At(s, d + 1) = "@" THEN SubSeq(s, 1, d - 1) \o Quote(name) \o Fill(From(s, d + 2), name, deps)
  ELSE SubSeq(s, 1, d - 1) \o Joined(deps) \o Fill(From(s, d + 3), name, deps)
Runs(st, k, deps) == SelectSeq([i \in 1..Len(st.tg[k].cmds) |-> Fill(st.tg[k].cmds[i], st.tg[k].n, deps)], LAMBDA c : c # "")
Once(l) == [i \in 1..Cardinality({l[j] : j \in 1..Len(l)}) |->
              l[CHOOSE j \in 1..Len(l) : l[j] \notin {l[h] : h \in 1..j - 1} /\ Cardinality({l[h] : h \in 1..j}) = i]]
\* the command contains $@
RECURSIVE Tells(_, _)
Tells(s, i) == LET d == FindC(s, i, "\r") IN d > 0 /\ (At(s, d + 1) = "@" \/ Tells(s, d + 1))
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN <<>> ELSE s \o Repeat(s, n - 1)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

Judge(in, obs) ==
  LET st == Read(Logical(in.lines, "", ""), Empty)
      goals == IF in.goals = <<>> /\ st.order # <<>> THEN << st.order[1] >> ELSE [i \in 1..Len(in.goals) |-> Low(in.goals[i])]
      wrong == ~st.ok \/ \E i \in 1..Len(goals) : goals[i] \notin DOMAIN st.tg
      cyclic == ~wrong /\ Cyclic(st, {goals[i] : i \in 1..Len(goals)})
      \* goals before the first one with a missing dependent are built
      bad == IF wrong \/ cyclic THEN {} ELSE {i \in 1..Len(goals) : Missing(st, goals[i])}
      done == IF wrong \/ cyclic THEN 0 ELSE IF bad = {} THEN Len(goals) ELSE CHOOSE i \in 0..Len(goals) - 1 : i + 1 \in bad /\ \A j \in bad : j > i
      times == [k \in DOMAIN st.tg |-> Cardinality({i \in 1..done : k \in Reach(st, {}, {goals[i]})})]
      \* whether a dependent listed twice is repeated in $** is left open
      fine(k, deps) == LET r == Runs(st, k, deps)
                           T == {r[i] : i \in 1..Len(r)}
                       IN SelectSeq(obs.cmds, LAMBDA c : c \in T) = Repeat(r, times[k])
      size(k) == times[k] * Len(Runs(st, k, <<>>))
      \* a damaged text may ask for programs that do not exist; what they do is not known
      known == \A k \in DOMAIN st.tg : \A i \in 1..Len(st.tg[k].cmds) : Trim(st.tg[k].cmds[i]) = "" \/ (At(st.tg[k].cmds[i], 1) = "x" /\ At(st.tg[k].cmds[i], 2) \in White)
      \* commands that do not say which target they belong to
      plain(k) == {st.tg[k].cmds[i] : i \in {j \in 1..Len(st.tg[k].cmds) : ~Tells(st.tg[k].cmds[j], 1)}} \ {""}
      apart == \A k, h \in DOMAIN st.tg : k # h => plain(k) \cap plain(h) = {}
      fails == wrong \/ cyclic \/ bad # {}
  IN IF ~known THEN {} ELSE
        If(obs.how \notin {"ok", "err"}, "crash")
     \cup If(obs.how \in {"ok", "err"} /\ fails /\ obs.how # "err", "accepted")
     \cup If(obs.how \in {"ok", "err"} /\ ~fails /\ obs.how # "ok", "refused")
     \cup If(obs.how \in {"ok", "err"} /\ (fails <=> obs.how = "err") /\ (wrong \/ cyclic) /\ obs.cmds # <<>>, "started")
     \cup If(obs.how \in {"ok", "err"} /\ (fails <=> obs.how = "err") /\ ~wrong /\ ~cyclic
             /\ (\/ apart /\ \E k \in DOMAIN st.tg : \A l \in Lists(st.tg[k].deps) : ~fine(k, l) /\ ~fine(k, Once(l))
                 \/ Sum([k \in DOMAIN st.tg |-> size(k)], DOMAIN st.tg) # Len(obs.cmds)), "commands")
Init == Start
Next == Decide(Judge(In, Obs))
CaseSpec == Init /\ [][Next]_<<id, decided>>
=============================================================================
