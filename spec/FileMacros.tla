---------------------------- MODULE FileMacros -------------------------------
(* What file name macros stand for (C28).                                      *)
(*                                                                             *)
(* A case has targets [n |-> name, src |-> the file an inference rule was      *)
(* applied to or "", deps |-> a sequence of names, which are sequences of       *)
(* pieces, cmds |-> a sequence of commands], and times, the time stamps of the  *)
(* files (in the order <<name, time>>; a file that is not there is not listed). *)
(* A command is [each |-> has the prefix "!", p |-> pieces], and a piece is     *)
(* [t |-> text] or [m |-> macro, mod |-> modifier, sub |-> <<>> or <<a, b>>].    *)
(* The commands of a target run one after the other, the targets in order.      *)
EXTENDS Cases
At(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
RECURSIVE Has(_, _, _)
Has(s, c, i) == i <= Len(s) /\ (At(s, i) = c \/ Has(s, c, i + 1))
RECURSIVE First(_, _, _)
First(s, c, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = c THEN i ELSE First(s, c, i + 1)
RECURSIVE Final(_, _, _)
Final(s, c, i) == IF i = 0 THEN 0 ELSE IF At(s, i) = c THEN i ELSE Final(s, c, i - 1)
RECURSIVE Replace(_, _, _)
Replace(s, a, b) == IF Len(s) < Len(a) THEN s
                    ELSE IF SubSeq(s, 1, Len(a)) = a THEN b \o Replace(From(s, Len(a) + 1), a, b)
                    ELSE At(s, 1) \o Replace(From(s, 2), a, b)
(* ---- parts of a name ---- *)
Slash(n) == Final(n, "\\", Len(n))
File(n) == From(n, Slash(n) + 1)
Directory(n) == IF Slash(n) = 0 THEN "." ELSE SubSeq(n, 1, Slash(n) - 1)
Base(n) == LET f == File(n) d == First(f, ".", 1) IN IF d = 0 THEN f ELSE SubSeq(f, 1, d - 1)
Root(n) == LET d == Final(n, ".", Len(n)) IN IF d <= Slash(n) THEN n ELSE SubSeq(n, 1, d - 1)
Part(n, mod) == CASE mod = "D" -> Directory(n) [] mod = "F" -> File(n) [] mod = "B" -> Base(n) [] mod = "R" -> Root(n) [] OTHER -> n

Quote(n) == IF Has(n, " ", 1) THEN "\"" \o n \o "\"" ELSE n
RECURSIVE Join(_)
Join(ns) == IF ns = <<>> THEN "" ELSE IF Len(ns) = 1 THEN Quote(ns[1]) ELSE Quote(ns[1]) \o " " \o Join(Tail(ns))
Time(n) == LET S == {i \in 1..Len(In.times) : In.times[i][1] = n} IN IF S = {} THEN 0 ELSE In.times[CHOOSE i \in S : TRUE][2]
Newer(t, ds) == SelectSeq(ds, LAMBDA d : Time(d) >= Time(t.n))
(* the names a macro stands for, given the dependents that count *)
Names(t, ds, m) == CASE m = "@" -> << t.n >>
                     [] m = "*" -> << Root(t.n) >>
                     [] m = "**" -> ds
                     [] m = "?" -> Newer(t, ds)
                     [] m = "<" -> IF t.src = "" THEN <<>> ELSE << t.src >>
Piece(t, ds, p) ==
  IF "t" \in DOMAIN p THEN p.t
  ELSE LET ns == Names(t, ds, p.m)
           word(n) == LET w == Part(n, p.mod) IN IF p.sub = <<>> THEN w ELSE Replace(w, p.sub[1], p.sub[2])
       IN Join([i \in 1..Len(ns) |-> word(ns[i])])
RECURSIVE Text(_, _, _)
Text(t, ds, ps) == IF ps = <<>> THEN "" ELSE Piece(t, ds, ps[1]) \o Text(t, ds, Tail(ps))
Uses(ps, m) == \E i \in 1..Len(ps) : "m" \in DOMAIN ps[i] /\ ps[i].m = m
Repeated(c, ds, t) == IF Uses(c.p, "**") THEN ds ELSE Newer(t, ds)
Texts(t, ds, c) == IF c.each /\ (Uses(c.p, "**") \/ Uses(c.p, "?"))
                   THEN LET r == Repeated(c, ds, t) IN [i \in 1..Len(r) |-> Text(t, << r[i] >>, c.p)]
                   ELSE << Text(t, ds, c.p) >>
RECURSIVE All(_, _, _)
All(t, ds, cs) == IF cs = <<>> THEN <<>> ELSE Texts(t, ds, cs[1]) \o All(t, ds, Tail(cs))
Dependents(t) == LET own == [i \in 1..Len(t.deps) |-> Text(t, <<>>, t.deps[i])]
                 IN IF t.src = "" \/ \E i \in 1..Len(own) : own[i] = t.src THEN own ELSE Append(own, t.src)
RECURSIVE Whole(_)
Whole(ts) == IF ts = <<>> THEN <<>> ELSE All(ts[1], Dependents(ts[1]), ts[1].cmds) \o Whole(Tail(ts))
Judge(in, obs) == If(obs.how # "ok", "refused") \cup If(obs.how = "ok" /\ obs.cmds # Whole(in.targets), "command")
Init == Start
Next == Decide(Judge(In, Obs))
CaseSpec == Init /\ [][Next]_<<id, decided>>
=============================================================================
