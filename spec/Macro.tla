------------------------------- MODULE Macro --------------------------------
(* Expansion of macro references in text (C23).  A case is a sequence of       *)
(* items, read in order: [k |-> "def", n |-> name, v |-> text],                *)
(* [k |-> "cmd", v |-> text] and [k |-> "msg", v |-> text].  The texts of the   *)
(* commands run and of the messages printed are compared with their expansion *)
(* at the place where they stand.                                              *)
EXTENDS Cases
At(s, i) == IF i <= Len(s) THEN SubSeq(s, i, i) ELSE ""
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Between(s, i, j) == IF j < i THEN "" ELSE SubSeq(s, i, j)
Fail == [ok |-> FALSE, s |-> "", at |-> 0]
Is(t, i) == [ok |-> TRUE, s |-> t, at |-> i]
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
            "0","1","2","3","4","5","6","7","8","9"}
RECURSIVE Find(_, _, _)
(* the first position from i on at which a character of cs stands, or 0 *)
Find(s, i, cs) == IF i > Len(s) THEN 0 ELSE IF At(s, i) \in cs THEN i ELSE Find(s, i + 1, cs)
RECURSIVE Unquote(_)
(* ^ stands for the character that follows it *)
Unquote(s) == IF s = "" THEN "" ELSE IF At(s, 1) = "^" THEN At(s, 2) \o Unquote(From(s, 3)) ELSE At(s, 1) \o Unquote(From(s, 2))
RECURSIVE Closing(_, _)
(* the parenthesis that ends a substitution; a quoted one does not *)
Closing(s, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = "^" THEN Closing(s, i + 2) ELSE IF At(s, i) = ")" THEN i ELSE Closing(s, i + 1)
RECURSIVE Replace(_, _, _)
Replace(s, a, b) == IF Len(s) < Len(a) THEN s
                    ELSE IF SubSeq(s, 1, Len(a)) = a THEN b \o Replace(From(s, Len(a) + 1), a, b)
                    ELSE At(s, 1) \o Replace(From(s, 2), a, b)

RECURSIVE Expand(_, _, _, _)
Value(m, n, used) == IF n \in used THEN Fail ELSE IF n \in DOMAIN m THEN Expand(m, m[n], 1, used \cup {n}) ELSE Is("", 0)
(* the reference at s[i] = "$", which is not the last character *)
Reference(m, s, i, used) ==
  LET c == At(s, i + 1) IN
  IF c = "$" THEN Is("$", i + 2)
  ELSE IF c \in Letters THEN LET v == Value(m, c, used) IN IF v.ok THEN Is(v.s, i + 2) ELSE Fail
  ELSE IF c # "(" THEN Fail
  ELSE LET e == Find(s, i + 2, {":", ")"}) IN
       IF e = 0 \/ e = i + 2 THEN Fail
       ELSE LET n == Between(s, i + 2, e - 1) IN
            IF At(s, e) = ")"
            THEN LET v == Value(m, n, used) IN IF v.ok THEN Is(v.s, e + 1) ELSE Fail
            ELSE LET z == Closing(s, e + 1)
                     q == Find(s, e + 1, {"="})
                     v == Value(m, n, used)
                 IN IF z = 0 \/ q = 0 \/ q > z \/ ~v.ok THEN Fail
                    ELSE Is(Replace(v.s, Unquote(Between(s, e + 1, q - 1)), Unquote(Between(s, q + 1, z - 1))), z + 1)
Expand(m, s, i, used) ==
  LET d == Find(s, i, {"$"}) IN
  IF d = 0 \/ d = Len(s) THEN Is(From(s, i), 0)
  ELSE LET r == Reference(m, s, d, used) IN
       IF ~r.ok THEN Fail
       ELSE LET x == Expand(m, s, r.at, used) IN IF x.ok THEN Is(Between(s, i, d - 1) \o r.s \o x.s, 0) ELSE Fail

(* a reference to the macro that is being defined stands for its old value *)
Defined(m, n, v) == (n :> Replace(v, "$(" \o n \o ")", IF n \in DOMAIN m THEN m[n] ELSE "")) @@ m

RECURSIVE Run(_, _, _, _)
Run(items, m, cmds, msgs) ==
  IF items = <<>> THEN [ok |-> TRUE, cmds |-> cmds, msgs |-> msgs]
  ELSE LET l == Head(items) IN
       IF l.k = "def" THEN Run(Tail(items), Defined(m, l.n, l.v), cmds, msgs)
       ELSE LET t == Expand(m, l.v, 1, {}) IN
            IF ~t.ok THEN [ok |-> FALSE, cmds |-> cmds, msgs |-> msgs]
            ELSE IF l.k = "cmd" THEN Run(Tail(items), m, Append(cmds, t.s), msgs)
            ELSE Run(Tail(items), m, cmds, Append(msgs, t.s))

Judge(in, obs) ==
  LET r == Run(in.items, [x \in {} |-> ""], <<>>, <<>>) IN
     If(obs.how \notin {"ok", "err"}, "crash")
  \cup If(r.ok /\ obs.how = "err", "refused")
  \cup If(~r.ok /\ obs.how = "ok", "accepted")
  \cup If(r.ok /\ obs.how = "ok" /\ obs.cmds # r.cmds, "command")
  \cup If(obs.how \in {"ok", "err"} /\ obs.out # r.msgs, "message")
Init == Start
Next == Decide(Judge(In, Obs))
CaseSpec == Init /\ [][Next]_<<id, decided>>
=============================================================================
