------------------------------ MODULE Options -------------------------------
(* What the words given to jom mean (C30).                                     *)
(*                                                                             *)
(* In.jomflags, In.makeflags: environment variables ("": not set);             *)
(* In.args: the words of the command line; In.cfiles: <<[name, text]>>, the    *)
(* command files that there are; In.cpus: processors.                          *)
(* In.mks: <<[name, tag, first]>>: the makefiles.  Every one of them has the   *)
(* targets ok, old, batch, inl, fail; commands carry the tag of the makefile.  *)
(* In.macs: <<[name, file, env, pre]>>: the macros whose values the target ok  *)
(* reveals; their values by makefile, environment and predefinition ("-":      *)
(* not defined there).                                                         *)
(* Obs: rc; started, printed: commands in order; values; flags: $(MAKEFLAGS);  *)
(* tokens: of the job server (-1: none); logo, usage, version, info, dir,      *)
(* build, dump: what was printed; xlogo: files that the logo went to;          *)
(* xfiles: files that appeared                                                 *)
EXTENDS Cases
Blank == {" ", "\t", "\n", "\r"}
Low == Chars("abcdefghijklmnopqrstuvwxyz")
Upp == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Digits == Chars("0123456789")
Up(c) == IF \E i \in 1..26 : Low[i] = c THEN Upp[CHOOSE i \in 1..26 : Low[i] = c] ELSE c
UpAll(w) == [i \in 1..Len(w) |-> Up(w[i])]
IsDigit(c) == c \in Range(Digits)
Value(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
RECURSIVE Number(_), Str(_), TrimL(_), TrimR(_)
Number(w) == IF w = <<>> THEN 0 ELSE 10 * Number(SubSeq(w, 1, Len(w) - 1)) + Value(w[Len(w)])
Str(w) == IF w = <<>> THEN "" ELSE Str(SubSeq(w, 1, Len(w) - 1)) \o w[Len(w)]
TrimL(w) == IF w # <<>> /\ w[1] \in Blank THEN TrimL(Tail(w)) ELSE w
TrimR(w) == IF w # <<>> /\ w[Len(w)] \in Blank THEN TrimR(SubSeq(w, 1, Len(w) - 1)) ELSE w
Trim(w) == TrimL(TrimR(w))
From(w, i) == SubSeq(w, i, Len(w))
Starts(w, k) == Len(w) >= Len(k) /\ SubSeq(w, 1, Len(k)) = k

(* ------------------------------------------------------- command files ---- *)
(* blanks and ends of lines separate words unless they are between quotes; two *)
(* quotes within quotes are one                                                *)
RECURSIVE Cut(_, _, _, _)
Cut(t, cur, words, quoted) ==
  LET done == IF Trim(cur) = <<>> THEN words ELSE Append(words, Trim(cur)) IN
  IF t = <<>> THEN done
  ELSE IF t[1] = "\"" THEN
         IF quoted /\ Len(t) > 1 /\ t[2] = "\"" THEN Cut(From(t, 3), Append(cur, "\""), words, TRUE)
         ELSE Cut(Tail(t), cur, words, ~quoted)
  ELSE IF t[1] \in Blank /\ ~quoted THEN Cut(Tail(t), <<>>, done, FALSE)
  ELSE Cut(Tail(t), Append(cur, t[1]), words, quoted)
(* a command file cannot name another one *)
FileWords(t) == SelectSeq(Cut(Chars(t), <<>>, <<>>, FALSE), LAMBDA w : w[1] # "@")

FileName(w) == IF Len(w) > 2 /\ w[2] = "\"" /\ w[Len(w)] = "\"" THEN Str(SubSeq(w, 3, Len(w) - 1)) ELSE Str(Tail(w))
There(w) == {i \in 1..Len(In.cfiles) : In.cfiles[i].name = FileName(w)}
EnvFlags == LET v == Chars(IF In.jomflags # "" THEN In.jomflags ELSE In.makeflags)
            IN IF v # <<>> /\ v[1] = "-" THEN Tail(v) ELSE v
EnvWords == IF EnvFlags = <<>> THEN <<>> ELSE <<(<<"/">> \o EnvFlags)>>
Args == [i \in 1..Len(In.args) |-> Chars(In.args[i])]
IsFile(w) == w[1] = "@"
Missing == \E i \in 1..Len(Args) : IsFile(Args[i]) /\ There(Args[i]) = {}
FileArgs == SelectSeq(Args, IsFile)
Words == EnvWords \o SelectSeq(Args, LAMBDA w : ~IsFile(w))
         \o FlattenSeq([i \in 1..Len(FileArgs) |-> FileWords(In.cfiles[CHOOSE j \in There(FileArgs[i]) : TRUE].text)])

(* -------------------------------------------------------------- options --- *)
Keywords == {"NOLOGO", "DUMPGRAPHDOT", "DUMPGRAPH", "DEBUG", "ERRORREPORT", "VERSION"}
Letters == {"A", "D", "E", "G", "I", "K", "L", "N", "P", "R", "S", "U", "W", "Y", "H"}
Fresh == [err |-> FALSE, on |-> {}, mk |-> "Makefile", x |-> "", jobs |-> 0, goals |-> <<>>, macros |-> <<>>]
KeyOf(w) == LET S == {k \in Keywords : Starts(UpAll(w), Chars(k))}
            IN IF S = {} THEN "" ELSE CHOOSE k \in S : \A j \in S : Len(j) <= Len(k)
Bad(st) == [st EXCEPT !.err = TRUE]
Add(st, o) == [st EXCEPT !.on = @ \cup {o}]
RECURSIVE DigitsOf(_)
DigitsOf(w) == IF w # <<>> /\ IsDigit(w[1]) THEN <<w[1]>> \o DigitsOf(Tail(w)) ELSE <<>>
Jobs(st, d) == IF d = <<>> \/ (\E i \in 1..Len(d) : ~IsDigit(d[i])) \/ Number(d) = 0 THEN Bad(st) ELSE [st EXCEPT !.jobs = Number(d)]
(* w: what is left of the word; rest: the words behind it *)
RECURSIVE Opts(_, _, _)
Opts(st, w, rest) ==
  IF w = <<>> \/ st.err THEN [st |-> st, rest |-> rest]
  ELSE LET k == KeyOf(w)  c == Up(w[1]) IN
  IF k # "" THEN Opts(Add(st, IF k = "NOLOGO" THEN "L" ELSE k), From(w, Len(k) + 1), rest)
  ELSE IF c \in {"F", "X", "J"} THEN
       IF Len(w) = 1 /\ rest = <<>> THEN [st |-> Bad(st), rest |-> rest]
       ELSE LET arg == IF Len(w) = 1 THEN rest[1] ELSE Tail(w)
                left == IF Len(w) = 1 THEN Tail(rest) ELSE rest
            IN CASE c = "F" -> [st |-> [st EXCEPT !.mk = Str(arg)], rest |-> left]
                 [] c = "X" -> [st |-> [st EXCEPT !.x = Str(arg)], rest |-> left]
                 [] c = "J" /\ Len(w) = 1 -> [st |-> Jobs(st, arg), rest |-> left]
                 [] c = "J" /\ Len(w) > 1 -> Opts(Jobs(st, DigitsOf(arg)), From(arg, Len(DigitsOf(arg)) + 1), rest)
  ELSE IF c = "?" THEN Opts(Add(st, "H"), Tail(w), rest)
  ELSE IF c \in Letters THEN Opts(Add(st, c), Tail(w), rest)
  ELSE [st |-> Bad(st), rest |-> rest]

(* --------------------------------------------------------------- macros --- *)
NameChars == Range(Low) \cup Range(Upp) \cup Range(Digits) \cup {"_", "."}
Valid(n) == n # <<>> /\ \A i \in 1..Len(n) : n[i] \in NameChars
(* the first definition counts, one of the very name before one of the name in lower case *)
Define(st, w) ==
  LET e == CHOOSE i \in 1..Len(w) : w[i] = "=" /\ \A j \in 1..(i - 1) : w[j] # "="
      n == Trim(SubSeq(w, 1, e - 1))
  IN IF ~Valid(n) THEN Bad(st)
     ELSE [st EXCEPT !.macros = Append(@, <<Str(n), Str(UpAll(n)), Str(TrimL(From(w, e + 1)))>>)]
RECURSIVE Parse(_, _)
Parse(st, words) ==
  IF words = <<>> \/ st.err THEN st
  ELSE LET w == words[1] IN
  IF w[1] \in {"/", "-"} THEN LET o == Opts(st, Trim(Tail(w)), Tail(words)) IN Parse(o.st, o.rest)
  ELSE IF "=" \in Range(w) THEN Parse(Define(st, w), Tail(words))
  ELSE LET g == Str(Trim(w)) IN Parse(IF g \in Range(st.goals) THEN st ELSE [st EXCEPT !.goals = Append(@, g)], Tail(words))
Settings == IF Missing THEN Bad(Fresh) ELSE Parse(Fresh, Words)

First(s, P(_)) == LET I == {i \in 1..Len(s) : P(s[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
ValueOf(st, m) ==
  LET exact == First(st.macros, LAMBDA d : d[1] = m.name)
      upper == First(st.macros, LAMBDA d : d[2] = m.name)
  IN IF exact # 0 THEN st.macros[exact][3]
     ELSE IF upper # 0 THEN st.macros[upper][3]
     ELSE IF m.env # "-" /\ "E" \in st.on THEN m.env
     ELSE IF m.file # "-" THEN m.file
     ELSE IF m.env # "-" THEN m.env
     ELSE IF m.pre # "-" /\ "R" \notin st.on THEN m.pre
     ELSE ""

(* -------------------------------------------------------------- effects --- *)
Handed == Letters \ {"H"}
Known == {"ok", "old", "batch", "inl", "fail"}
Judge(in, o) ==
  LET s == Settings
      Has(x) == x \in s.on
      mk == {i \in 1..Len(in.mks) : in.mks[i].name = s.mk}
      m == in.mks[CHOOSE i \in mk : TRUE]
      goals == IF s.goals = <<>> THEN <<m.first>> ELSE s.goals
      jobs == IF s.jobs = 0 THEN in.cpus ELSE s.jobs
      nothing == o.started = <<>> /\ o.printed = <<>>
      shows == s.err = FALSE /\ (Has("H") \/ Has("VERSION"))
      graph == Has("DUMPGRAPH") \/ Has("DUMPGRAPHDOT")
      quietLogo == Has("L") \/ graph
      noFile == s.x # "" /\ Starts(Chars(s.x), Chars("nodir\\"))
      (* the commands of a target; those of batch may come in one or two *)
      Cmd(g) == CASE g = "old" -> IF Has("A") THEN <<"old">> ELSE <<>>
                  [] g = "batch" -> IF Has("Y") THEN <<"q", "q">> ELSE <<"q">>
                  [] OTHER -> <<g>>
      Tagged(x) == [i \in 1..Len(x) |-> m.tag \o "." \o x[i]]
      All == Tagged(FlattenSeq([i \in 1..Len(goals) |-> Cmd(goals[i])]))
      fails == "fail" \in Range(goals) /\ ~Has("N")
      stops == fails /\ ~Has("I") /\ ~Has("K")
      failAt == First(All, LAMBDA x : x = m.tag \o ".fail")
      Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
      Same(p, q) == \A x \in Range(p) \cup Range(q) : Count(p, x) = Count(q, x) \/ (x = m.tag \o ".q" /\ jobs > 1 /\ ~Has("Y") /\ Count(p, x) \in 1..2)
      Fewer(p, q) == \A x \in Range(p) : Count(p, x) <= Count(q, x) \/ (x = m.tag \o ".q" /\ jobs > 1 /\ ~Has("Y") /\ Count(p, x) \in 1..2)
      Right(p) == IF stops THEN IF jobs = 1 THEN p = SubSeq(All, 1, failAt) ELSE Fewer(p, All) /\ m.tag \o ".fail" \in Range(p)
                  ELSE IF jobs = 1 THEN p = All ELSE Same(p, All)
      f == Parse(Fresh, <<(<<"/">> \o Chars(o.flags))>>)
  IN IF s.err THEN If(o.rc # 128, "status") \cup If(~nothing, "built") \cup If(~o.usage /\ ~o.invalid, "usage")
     ELSE IF shows THEN If(o.rc # 0, "status") \cup If(~nothing, "built") \cup If(o.usage # Has("H"), "usage")
                        \cup If(o.version # (~Has("H")), "version") \cup If(Has("H") /\ o.logo = quietLogo, "logo")
     ELSE IF noFile \/ mk = {} THEN If(o.rc # 2, "status") \cup If(~nothing, "built")
     ELSE IF Range(goals) \ Known # {} /\ Range(goals) # {m.first} THEN If(o.rc # 2, "status")
     ELSE If(o.rc # (IF fails /\ ~graph /\ ~Has("I") THEN IF Has("K") THEN 1 ELSE 2 ELSE 0), "status")
          \cup If(o.logo = quietLogo \/ o.usage \/ o.version, "logo")
          \cup If(s.x # "" /\ s.x \notin Range(o.xfiles), "errfile")
          \cup If(~quietLogo /\ o.xlogo # (IF s.x = "" THEN <<>> ELSE <<s.x>>), "errfile")
          \cup If(o.info # Has("P"), "info")
          \cup IF graph THEN If(~nothing, "built")
          ELSE If(IF Has("N") THEN o.started # <<>> ELSE ~Right(o.started), "built")
          \cup If(IF Has("N") THEN ~Right(o.printed) ELSE o.printed # (IF Has("S") THEN <<>> ELSE o.started), "printed")
          \cup If(o.tokens # jobs - 1, "jobs")
          \cup If(o.dir # Has("W"), "directory")
          \cup If(o.build # Has("D"), "display")
          \cup If(m.tag \o ".inl" \in Range(o.started) /\ o.dump # Has("U"), "inline")
          \cup IF m.tag \o ".ok" \notin Range(o.started \o o.printed) THEN {}
               ELSE If(o.values # [i \in 1..Len(in.macs) |-> ValueOf(s, in.macs[i])], "macros")
                    \cup If(f.err \/ f.on # s.on \cap Handed \/ f.jobs # s.jobs \/ f.x # "" \/ f.mk # "Makefile", "flags")
Init == Start
Next == Decide(Judge(In, Obs))
CaseSpec == Init /\ [][Next]_<<id, decided>>
=============================================================================
