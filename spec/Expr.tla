-------------------------------- MODULE Expr ---------------------------------
(* Preprocessing expressions.  The input is a sequence of tokens               *)
(*   [k |-> "num", v |-> n], [k |-> "str", v |-> text],                        *)
(*   [k |-> "op", v |-> operator], [k |-> "fact", v |-> n]                     *)
(* where a fact is a DEFINED(..), EXIST(..) or [command] term together with    *)
(* the value it has in the world the case was run in.                          *)
(* Eval yields [ok |-> ..., v |-> ..., at |-> next token]; ok is FALSE for     *)
(* malformed expressions and for those that have no defined value.  A case is  *)
(* decided only if no value leaves the range in which 32-bit integers, TLC's   *)
(* too, are exact; the generator sees to that.                                 *)
EXTENDS Cases, Bitwise
Err == [ok |-> FALSE, v |-> 0, at |-> 0, s |-> FALSE]
Val(n, at) == [ok |-> TRUE, v |-> n, at |-> at, s |-> FALSE]
Bool(b) == IF b THEN 1 ELSE 0
Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE [k |-> "end", v |-> 0]
IsOp(ts, i, o) == Tok(ts, i).k = "op" /\ Tok(ts, i).v = o

(* C's operations; division truncates towards zero *)
Abs(n) == IF n < 0 THEN -n ELSE n
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Rem(a, b) == a - b * Quot(a, b)
RECURSIVE AndN(_, _)
AndN(a, b) == (* two's complement, by way of a & b = -(~a | ~b) - 1 *)
  IF a >= 0 /\ b >= 0 THEN a & b
  ELSE IF a < 0 /\ b < 0 THEN -((-a - 1) | (-b - 1)) - 1
  ELSE IF a < 0 THEN b - (b & (-a - 1)) ELSE a - (a & (-b - 1))
OrN(a, b) == -AndN(-a - 1, -b - 1) - 1
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Apply(o, a, b) ==
  CASE o = "||" -> Bool(a # 0 \/ b # 0) [] o = "&&" -> Bool(a # 0 /\ b # 0)
    [] o = "|" -> OrN(a, b) [] o = "&" -> AndN(a, b)
    [] o = "==" -> Bool(a = b) [] o = "!=" -> Bool(a # b)
    [] o = "<" -> Bool(a < b) [] o = ">" -> Bool(a > b) [] o = "<=" -> Bool(a <= b) [] o = ">=" -> Bool(a >= b)
    [] o = "<<" -> a * Pow2(b) [] o = ">>" -> a \div Pow2(b)
    [] o = "+" -> a + b [] o = "-" -> a - b [] o = "*" -> a * b
    [] o = "/" -> Quot(a, b) [] o = "%" -> Rem(a, b)
Levels == << {"||"}, {"&&"}, {"|"}, {"&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"} >>

RECURSIVE Level(_, _, _), Rest(_, _, _), Unary(_, _)
Unary(ts, i) ==
  LET t == Tok(ts, i) IN
  IF t.k \in {"num", "fact"} THEN Val(t.v, i + 1)
  ELSE IF t.k = "op" /\ t.v \in {"-", "~", "!"}
       THEN
            LET r == Unary(ts, i + 1)
            IN IF ~r.ok THEN Err
               ELSE Val(IF t.v = "-" THEN -r.v ELSE IF t.v = "~" THEN -r.v - 1 ELSE Bool(r.v = 0), r.at)
  ELSE IF IsOp(ts, i, "(")
       THEN LET r == Level(ts, i + 1, 1) IN IF r.ok /\ IsOp(ts, r.at, ")") THEN Val(r.v, r.at + 1) ELSE Err
  ELSE Err
(* r: the value of what has been read at this level so far *)
Rest(ts, r, l) ==
  IF ~r.ok THEN Err
  ELSE LET t == Tok(ts, r.at) IN
       IF t.k = "op" /\ t.v \in Levels[l]
       THEN LET x == Level(ts, r.at + 1, l + 1) IN
            IF ~x.ok \/ x.s \/ r.s THEN Err
            ELSE IF t.v \in {"/", "%"} /\ x.v = 0 THEN Err
            ELSE Rest(ts, Val(Apply(t.v, r.v, x.v), x.at), l)
       ELSE r
Level(ts, i, l) ==
  IF l > Len(Levels) THEN Unary(ts, i)
  ELSE IF l = 5 /\ Tok(ts, i).k = "str"
       THEN (* a comparison of two strings stands where one of numbers would, and is not continued *)
            IF Tok(ts, i + 2).k = "str" /\ (IsOp(ts, i + 1, "==") \/ IsOp(ts, i + 1, "!="))
            THEN Val(Bool((Tok(ts, i).v = Tok(ts, i + 2).v) = (Tok(ts, i + 1).v = "==")), i + 3)
            ELSE Err
       ELSE Rest(ts, Level(ts, i, l + 1), l)
Eval(ts) == LET r == Level(ts, 1, 1) IN IF r.ok /\ r.at = Len(ts) + 1 THEN r ELSE Err

(* what is observed: "err" (nothing was built), "yes" or "no" (the branch taken), or something else *)
Judge(in, obs) ==
  LET r == Eval(in.ts) IN
     If(r.ok /\ obs.how = "err", "refused")
  \cup If(r.ok /\ obs.how \in {"yes", "no"} /\ obs.how # (IF r.v # 0 THEN "yes" ELSE "no"), "value")
  \cup If(~r.ok /\ obs.how \in {"yes", "no"}, "accepted")
  \cup If(obs.how \notin {"err", "yes", "no"}, "crash")

Init == Start
Next == Decide(Judge(In, Obs))
CaseSpec == Init /\ [][Next]_<<id, decided>>
=============================================================================
