----------------------------- MODULE Wellformed -----------------------------
(* When a makefile is well formed, and what happens if it is not (C29).        *)
(*                                                                             *)
(* A case gives the items (lines or recipes of lines) of the makefile and of   *)
(* the files that it includes, the goals, the existing files, and options.     *)
(* The state machine reads the items one after the other like the parser:      *)
(* conditionals switch regions on and off, !INCLUDE switches to another file,  *)
(* and an active item may be one that a makefile must not contain.  If nothing *)
(* is wrong with the text, what counts is the graph of the targets: a target   *)
(* has one kind of colon, the goals exist and there is no way from a goal to   *)
(* a cycle, and what the goal in turn needs is either a target or exists.      *)
EXTENDS Cases
VARIABLES at,       \* where the parser is: a sequence of << file, number of items read >>
          cond,     \* open conditionals: on: region active, done: some branch was taken, out: around it, last: !ELSE seen
          open,     \* "no": a command belongs to nothing; "new": a block without a command yet; "rule", "yes"
          blocks,   \* the active blocks
          fault     \* the text is faulty
vars == <<id, decided, at, cond, open, blocks, fault>>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Map == [c \in {Upper[i] : i \in 1..26} \cup {"/"} |-> IF c = "/" THEN "\\" ELSE Lower[CHOOSE i \in 1..26 : Upper[i] = c]]
RECURSIVE Norm(_)
Norm(s) == IF s = "" THEN "" ELSE LET c == SubSeq(s, 1, 1) IN (IF c \in DOMAIN Map THEN Map[c] ELSE c) \o Norm(SubSeq(s, 2, Len(s)))

Items(f) == In.text[f]
Top == at[Len(at)]
AtEnd == at = <<>>
It == Items(Top[1])[Top[2] + 1]
Active == cond = <<>> \/ cond[Len(cond)].on
Advance(a) == [a EXCEPT ![Len(a)] = <<@[1], @[2] + 1>>]
Set(on) == [cond EXCEPT ![Len(cond)].on = on, ![Len(cond)].done = @ \/ on]
Keep(x) == UNCHANGED x

Read ==
  /\ ~decided /\ ~fault /\ ~AtEnd
  /\ IF Top[2] = Len(Items(Top[1])) THEN at' = SubSeq(at, 1, Len(at) - 1) /\ UNCHANGED <<cond, open, blocks, fault>>
     ELSE CASE
       It.k = "if" ->
            /\ cond' = Append(cond, [out |-> Active, on |-> Active /\ It.v = 1, done |-> It.v = 1, last |-> FALSE])
            /\ fault' = (Active /\ It.v = 2) /\ at' = Advance(at) /\ UNCHANGED <<open, blocks>>      \* 2: no expression
       [] It.k = "elseif" ->
            IF cond = <<>> \/ cond[Len(cond)].last THEN fault' = TRUE /\ UNCHANGED <<at, cond, open, blocks>>
            ELSE LET c == cond[Len(cond)] IN
                 /\ cond' = Set(c.out /\ ~c.done /\ It.v = 1)
                 /\ fault' = (c.out /\ ~c.done /\ It.v = 2) /\ at' = Advance(at) /\ UNCHANGED <<open, blocks>>
       [] It.k = "else" ->
            IF cond = <<>> \/ cond[Len(cond)].last THEN fault' = TRUE /\ UNCHANGED <<at, cond, open, blocks>>
            ELSE LET c == cond[Len(cond)] IN
                 /\ cond' = [Set(c.out /\ ~c.done) EXCEPT ![Len(cond)].last = TRUE]
                 /\ at' = Advance(at) /\ UNCHANGED <<open, blocks, fault>>
       [] It.k = "endif" ->
            IF cond = <<>> THEN fault' = TRUE /\ UNCHANGED <<at, cond, open, blocks>>
            ELSE cond' = SubSeq(cond, 1, Len(cond) - 1) /\ at' = Advance(at) /\ UNCHANGED <<open, blocks, fault>>
       [] ~Active -> at' = Advance(at) /\ UNCHANGED <<cond, open, blocks, fault>>
       [] It.k = "include" ->
            IF It.f \in DOMAIN In.text THEN at' = Append(Advance(at), <<It.f, 0>>) /\ UNCHANGED <<cond, open, blocks, fault>>
            ELSE fault' = TRUE /\ UNCHANGED <<at, cond, open, blocks>>
       [] It.k \in {"bad", "badcmd", "error"} -> fault' = TRUE /\ UNCHANGED <<at, cond, open, blocks>>
       [] It.k = "block" ->
            /\ blocks' = Append(blocks, It) /\ open' = (IF It.cmds = <<>> THEN "new" ELSE "yes")
            /\ at' = Advance(at) /\ UNCHANGED <<cond, fault>>
       [] It.k = "cmd" ->                     \* one more command of the block before it, if there is one
            IF open = "no" THEN fault' = TRUE /\ UNCHANGED <<at, cond, open, blocks>>
            ELSE IF open = "rule" THEN at' = Advance(at) /\ UNCHANGED <<cond, open, blocks, fault>>
            ELSE /\ blocks' = [blocks EXCEPT ![Len(blocks)].cmds = Append(@, It.id)] /\ open' = "yes"
                 /\ at' = Advance(at) /\ UNCHANGED <<cond, fault>>
       [] It.k = "rule" -> open' = "rule" /\ at' = Advance(at) /\ UNCHANGED <<cond, blocks, fault>>     \* an inference rule
       [] It.k = "blank" -> open' = (IF open = "new" THEN "no" ELSE open) /\ at' = Advance(at) /\ UNCHANGED <<cond, blocks, fault>>
       [] It.k = "through" -> at' = Advance(at) /\ UNCHANGED <<cond, open, blocks, fault>>           \* a comment, !MESSAGE, a macro
       [] OTHER -> open' = "no" /\ at' = Advance(at) /\ UNCHANGED <<cond, blocks, fault>>            \* a dot directive

(* ---- the graph ------------------------------------------------------------- *)
Sq(x) == {x[i] : i \in 1..Len(x)}
Here == "$(makedir)\\"
Blk == [i \in 1..Len(blocks) |-> [ns |-> {Norm(n) : n \in Sq(blocks[i].names)}, ty |-> blocks[i].ty, deps |-> {Norm(n) : n \in Sq(blocks[i].deps)}, cmds |-> Sq(blocks[i].cmds)]]
Graph ==
  LET bs == Blk
      tg == UNION {bs[i].ns : i \in DOMAIN bs}
      res(d) == IF d \in tg THEN d ELSE IF Here \o d \in tg THEN Here \o d ELSE d
      dep == [t \in tg |-> {res(d) : d \in UNION {bs[i].deps : i \in {j \in DOMAIN bs : t \in bs[j].ns}}}]
      cmd == [t \in tg |-> UNION {bs[i].cmds : i \in {j \in DOMAIN bs : t \in bs[j].ns}}]
      \* which commands a target with one colon has that gets some from several blocks is not said here
      clash == {t \in tg : Cardinality({i \in DOMAIN bs : t \in bs[i].ns /\ bs[i].ty = ":" /\ bs[i].cmds # {}}) > 1}
      mixed == \E i, j \in DOMAIN bs : bs[i].ns \cap bs[j].ns # {} /\ bs[i].ty # bs[j].ty
      files == {Norm(f) : f \in Sq(In.files)}
      RECURSIVE Reach(_)
      Reach(s) == LET n == s \cup UNION {dep[t] : t \in s \cap tg} IN IF n = s THEN s ELSE Reach(n)
      goals == IF In.goals # <<>> THEN [i \in 1..Len(In.goals) |-> Norm(In.goals[i])]
               ELSE IF blocks = <<>> THEN <<>> ELSE << Norm(blocks[1].names[1]) >>
      nogoal == \E i \in DOMAIN goals : goals[i] \notin tg
      all == Reach(Sq(goals) \cap tg) \cap tg
      looped == {t \in tg : t \in Reach(dep[t])}
      lacks(i) == (Reach({goals[i]}) \ tg) \ files # {}
      turn == IF \E i \in DOMAIN goals : lacks(i) THEN CHOOSE i \in DOMAIN goals : lacks(i) /\ \A j \in 1..(i - 1) : ~lacks(j) ELSE Len(goals) + 1
      built == Reach({goals[i] : i \in 1..(turn - 1)}) \cap tg
  IN [bad |-> mixed \/ nogoal \/ all \cap looped # {}, free |-> looped \ all # {}, lacks |-> turn <= Len(goals),
      may |-> UNION {cmd[t] : t \in built}, must |-> UNION {cmd[t] : t \in built \ clash}]
Ran == Sq(Obs.starts)
Judge ==
  LET textbad == fault \/ cond # <<>> \/ In.absent
      g == IF textbad THEN [bad |-> TRUE, free |-> FALSE, lacks |-> FALSE, may |-> {}, must |-> {}] ELSE Graph
      failed == Obs.rc # 0 /\ Obs.msg
  IN If(Obs.how # "exit", "crash")
     \cup (IF g.bad THEN If(~failed, "accepted") \cup If(Ran # {}, "started")
           ELSE IF g.free /\ Obs.rc # 0 THEN {}           \* a cycle that no goal needs may count as a fault or not
           ELSE If(g.lacks /\ ~failed, "accepted") \cup If(~g.lacks /\ Obs.rc # 0, "refused")
                \cup If(Ran \ (IF In.dry THEN {} ELSE g.may) # {}, "started") \cup If(~In.dry /\ g.must \ Ran # {}, "unbuilt"))
Init == /\ Start /\ at = << <<"Makefile", 0>> >> /\ cond = <<>> /\ open = "no" /\ blocks = <<>> /\ fault = FALSE
Next == \/ Read /\ UNCHANGED <<id, decided>>
        \/ ~decided /\ (fault \/ AtEnd) /\ Decide(Judge) /\ UNCHANGED <<at, cond, open, blocks, fault>>
        \/ decided /\ UNCHANGED vars
CaseSpec == Init /\ [][Next]_vars
=============================================================================
