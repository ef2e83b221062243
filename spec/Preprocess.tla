----------------------------- MODULE Preprocess -----------------------------
(* Reading a makefile line by line: conditional directives (C20), included    *)
(* files (C21) and macro definitions and their precedence (C24).              *)
(*                                                                            *)
(* A case gives the lines of every file in abstract form, the definitions     *)
(* that come from elsewhere (command line, environment, predefined) and the   *)
(* options /E and /R.  One step reads one line.  What has been seen at the    *)
(* end is compared with what the real program printed (!MESSAGE) and which    *)
(* commands it ran.                                                           *)
(*                                                                            *)
(* Text with macro references is a sequence of parts [t |-> "lit", v |-> s],  *)
(* [t |-> "ref", v |-> name].  Lines are records with a kind k:                *)
(*   def n v     undef n    msg v    error    bad (anything malformed)        *)
(*   include form name      (form: "plain" or "angle")                        *)
(*   if c / ifdef n neg / elseif c / elseifdef n neg / else / endif           *)
(*   rule v, cmd v (a command of the target, with text v)                     *)
(*   dep n v w (a target n of its own with the dependents v, which are files, *)
(*   and the command 'x n dependents . w'; none of the files is made; rule:   *)
(*   the command is that of an inference rule, which is for the macros as     *)
(*   they are at the end, whatever rule for a target is found)                *)
(* Conditions: [c |-> "num", v], [c |-> "defd", n], [c |-> "eq", a, b],        *)
(*   [c |-> "not", x], [c |-> "and"/"or", x, y], [c |-> "bad"].               *)
EXTENDS Cases
VARIABLES stack,    \* the files being read, the outermost first: [file, at]
          mac,      \* macro name -> [v |-> parts, ro |-> BOOLEAN]
          conds,    \* open conditionals: [s, last], s one of "taken", "seek" (no branch chosen yet), "done",
                    \* "off" (within a skipped region); last: the branch is that of !ELSE
          out, cmds, \* messages printed, commands of the target
          status    \* "run", "ok", "err"
pvars == <<id, decided, stack, mac, conds, out, cmds, status>>

Put(f, n, x) == (n :> x) @@ f
Has(f, n) == n \in DOMAIN f

(* ---- macros ---- *)
Fail == [ok |-> FALSE, s |-> ""]
RECURSIVE Expand(_, _, _)
(* the text of ps; used: the macros being expanded *)
Expand(m, ps, used) ==
  IF ps = <<>> THEN [ok |-> TRUE, s |-> ""]
  ELSE LET p == Head(ps)
           h == IF p.t = "lit" THEN [ok |-> TRUE, s |-> p.v]
                ELSE IF p.v \in used THEN Fail
                ELSE IF Has(m, p.v) THEN Expand(m, m[p.v].v, used \cup {p.v})
                ELSE [ok |-> TRUE, s |-> ""]
           r == Expand(m, Tail(ps), used)
       IN IF h.ok /\ r.ok THEN [ok |-> TRUE, s |-> h.s \o r.s] ELSE Fail
Text(ps) == Expand(mac, ps, {})
(* a reference to the macro being defined stands for its old value *)
RECURSIVE Inst(_, _, _)
Inst(ps, n, old) == IF ps = <<>> THEN <<>>
                    ELSE (IF Head(ps).t = "ref" /\ Head(ps).v = n THEN old ELSE <<Head(ps)>>) \o Inst(Tail(ps), n, old)
Old(m, n) == IF Has(m, n) THEN m[n].v ELSE <<>>
Define(m, n, ps, ro) == IF Has(m, n) /\ m[n].ro THEN m ELSE Put(m, n, [v |-> Inst(ps, n, Old(m, n)), ro |-> ro])

(* the definitions in force before the first line is read: command line over environment over predefined *)
RECURSIVE AddAll(_, _, _)
AddAll(m, ds, ro) == IF ds = <<>> THEN m
                     ELSE AddAll(IF Has(m, Head(ds).n) THEN m ELSE Define(m, Head(ds).n, Head(ds).v, ro), Tail(ds), ro)
(* the program's own name and the directory it runs in replace what the environment says, where that may be replaced *)
RECURSIVE SetAll(_, _)
SetAll(m, ds) == IF ds = <<>> THEN m ELSE SetAll(Define(m, Head(ds).n, Head(ds).v, FALSE), Tail(ds))
Initial == LET c == AddAll([x \in {} |-> 0], In.cmdline, TRUE)
               e == AddAll(c, In.env, In.E)
           IN IF In.R THEN e ELSE SetAll(AddAll(e, In.predef, FALSE), In.own)

(* ---- conditions ---- *)
RECURSIVE Cond(_)
Cond(c) == (* "T", "F" or "E" *)
  LET B(b) == IF b THEN "T" ELSE "F" IN
  CASE c.c = "num" -> B(c.v # 0)
    [] c.c = "defd" -> B(Has(mac, c.n))
    [] c.c = "eq" -> LET a == Text(c.a) b == Text(c.b) IN IF a.ok /\ b.ok THEN B(a.s = b.s) ELSE "E"
    [] c.c = "bad" -> "E"
    [] c.c = "not" -> LET x == Cond(c.x) IN IF x = "E" THEN "E" ELSE B(x = "F")
    [] OTHER -> LET x == Cond(c.x) y == Cond(c.y)
                IN IF "E" \in {x, y} THEN "E" ELSE IF c.c = "and" THEN B(x = "T" /\ y = "T") ELSE B(x = "T" \/ y = "T")
Test(l) == IF l.k \in {"if", "elseif"} THEN Cond(l.c)
           ELSE LET n == Text(l.n) IN IF ~n.ok THEN "E" ELSE IF Has(mac, n.s) # l.neg THEN "T" ELSE "F"

(* ---- included files ---- *)
Top == stack[Len(stack)]
Dir(f) == In.files[f].dir           \* "" is the current directory
At(d, n) == IF d = "" THEN n ELSE d \o "/" \o n
RECURSIVE Split(_, _, _)
Split(s, sep, acc) == IF s = "" THEN (IF acc = "" THEN <<>> ELSE <<acc>>)
                      ELSE LET c == SubSeq(s, 1, 1) r == SubSeq(s, 2, Len(s))
                           IN IF c = sep THEN (IF acc = "" THEN <<>> ELSE <<acc>>) \o Split(r, sep, "") ELSE Split(r, sep, acc \o c)
IncludeDirs == LET t == Text(<<[t |-> "ref", v |-> "INCLUDE"]>>) IN Split(t.s, ";", "")
Places(form, n) == <<n>> \o [i \in 1..Len(stack) |-> At(Dir(stack[Len(stack) + 1 - i].file), n)]
                   \o (IF form = "angle" THEN [i \in 1..Len(IncludeDirs) |-> At(IncludeDirs[i], n)] ELSE <<>>)
Found(form, n) == LET p == Places(form, n)
                      hits == {i \in 1..Len(p) : Has(In.files, p[i])}
                  IN IF hits = {} THEN "" ELSE p[CHOOSE i \in hits : \A j \in hits : i <= j]

RECURSIVE Once(_, _), Join(_)
Once(ws, seen) == IF ws = <<>> THEN <<>> ELSE (IF Head(ws) \in seen THEN <<>> ELSE <<Head(ws)>>) \o Once(Tail(ws), seen \cup {Head(ws)})
Join(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Join(Tail(ws))

(* ---- one line ---- *)
On == \A i \in 1..Len(conds) : conds[i].s = "taken"
Line == In.files[Top.file].lines[Top.at]
AtEnd == Top.at > Len(In.files[Top.file].lines)
Advance == [stack EXCEPT ![Len(stack)].at = @ + 1]
Keep(vs) == UNCHANGED vs
Bad == status' = "err" /\ UNCHANGED <<stack, mac, conds, out, cmds>>
Rest(s, m, c, o, d) == status' = "run" /\ stack' = s /\ mac' = m /\ conds' = c /\ out' = o /\ cmds' = d
IsIf(l) == l.k \in {"if", "ifdef"}
IsElse(l) == l.k \in {"elseif", "elseifdef", "else"}
Conditional(l) ==
  IF IsIf(l)
  THEN IF ~On THEN Rest(Advance, mac, Append(conds, [s |-> "off", last |-> FALSE]), out, cmds)
       ELSE CASE Test(l) = "E" -> Bad
              [] Test(l) = "T" -> Rest(Advance, mac, Append(conds, [s |-> "taken", last |-> FALSE]), out, cmds)
              [] OTHER -> Rest(Advance, mac, Append(conds, [s |-> "seek", last |-> FALSE]), out, cmds)
  ELSE IF conds = <<>> THEN Bad
  ELSE IF l.k = "endif" THEN Rest(Advance, mac, SubSeq(conds, 1, Len(conds) - 1), out, cmds)
  ELSE LET c == conds[Len(conds)]
           Set(x) == [conds EXCEPT ![Len(conds)] = [s |-> x, last |-> l.k = "else"]] IN
       CASE c.s = "off" -> Rest(Advance, mac, conds, out, cmds)
         [] c.last -> Bad                             \* another branch after !ELSE
         [] c.s = "seek" /\ l.k = "else" -> Rest(Advance, mac, Set("taken"), out, cmds)
         [] c.s = "seek" -> (CASE Test(l) = "E" -> Bad
                               [] Test(l) = "T" -> Rest(Advance, mac, Set("taken"), out, cmds)
                               [] OTHER -> Rest(Advance, mac, conds, out, cmds))
         [] OTHER -> Rest(Advance, mac, Set("done"), out, cmds)
Effective(l) ==
  CASE l.k = "def" -> Rest(Advance, Define(mac, l.n, l.v, FALSE), conds, out, cmds)
    [] l.k = "undef" -> Rest(Advance, [n \in (DOMAIN mac) \ {l.n} |-> mac[n]], conds, out, cmds)
    [] l.k = "msg" -> LET t == Text(l.v) IN IF t.ok THEN Rest(Advance, mac, conds, Append(out, t.s), cmds) ELSE Bad
    [] l.k \in {"rule", "cmd"} -> LET t == Text(l.v) IN IF t.ok THEN Rest(Advance, mac, conds, out, Append(cmds, [sub |-> FALSE, s |-> t.s, late |-> <<>>])) ELSE Bad
    [] l.k = "dep" -> LET n == Text(l.n) v == Text(l.v) w == Text(l.w)
                      IN IF n.ok /\ v.ok /\ (w.ok \/ l.rule)
                         THEN Rest(Advance, mac, conds, out,
                                   Append(cmds, [sub |-> TRUE, s |-> "x " \o n.s \o " " \o Join(Once(Split(v.s, " ", ""), {})) \o " . " \o (IF l.rule THEN "" ELSE w.s),
                                                 late |-> IF l.rule THEN l.w ELSE <<>>]))
                         ELSE Bad
    [] l.k = "include" ->
         LET t == Text(l.v)
             f == IF t.ok THEN Found(l.form, t.s) ELSE "" IN
         IF f = "" \/ (\E i \in 1..Len(stack) : stack[i].file = f) THEN Bad
         ELSE Rest(Append(Advance, [file |-> f, at |-> 1]), mac, conds, out, cmds)
    [] OTHER -> Bad                                   \* error, bad
EndOfFile == IF Len(stack) > 1 THEN Rest(SubSeq(stack, 1, Len(stack) - 1), mac, conds, out, cmds)
             ELSE /\ status' = IF conds = <<>> THEN "ok" ELSE "err"
                  /\ UNCHANGED <<stack, mac, conds, out, cmds>>
Step == IF AtEnd THEN EndOfFile
        ELSE LET l == Line IN
             IF IsIf(l) \/ IsElse(l) \/ l.k = "endif" THEN Conditional(l)
             ELSE IF On THEN Effective(l)
             ELSE Rest(Advance, mac, conds, out, cmds)

(* the dependents of the target come first *)
Texts(cs) == [i \in 1..Len(cs) |-> cs[i].s \o Text(cs[i].late).s]
Commands == Texts(SelectSeq(cmds, LAMBDA c : c.sub)) \o Texts(SelectSeq(cmds, LAMBDA c : ~c.sub))

Broken ==
     If(Obs.how \notin {"ok", "err"}, "crash")
  \cup If(status = "err" /\ Obs.how = "ok", "accepted")
  \cup If(status = "ok" /\ Obs.how = "err", "refused")
  \cup If(Obs.how \in {"ok", "err"} /\ Obs.out # out, "message")
  \cup If(status = "ok" /\ Obs.how = "ok" /\ Obs.cmds # Commands, "command")

Init == Start /\ stack = << [file |-> In.top, at |-> 1] >> /\ mac = Initial /\ conds = <<>> /\ out = <<>> /\ cmds = <<>> /\ status = "run"
Next == \/ status = "run" /\ Step /\ UNCHANGED <<id, decided>>
        \/ status # "run" /\ Decide(Broken) /\ UNCHANGED <<stack, mac, conds, out, cmds, status>>
        \/ decided /\ UNCHANGED pvars
CaseSpec == Init /\ [][Next]_pvars
=============================================================================
