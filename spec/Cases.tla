------------------------------- MODULE Cases --------------------------------
(* Evaluates a judgement on a list of recorded cases.  A module that extends   *)
(* this one defines Judge(in, obs), the set of rules that are broken, and      *)
(*   CaseInit == Start   CaseNext == Decide(Judge(In, Obs))                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
AllCases == JsonDeserialize(IOEnv.TRACES).cases
VARIABLES id, decided
In == AllCases[id].in
Obs == AllCases[id].obs
Start == id \in 1..Len(AllCases) /\ decided = FALSE
Decide(broken) == /\ ~decided /\ decided' = TRUE /\ id' = id
                  /\ (broken # {} => PrintT(<<"@V", id, broken>>))
If(b, label) == IF b THEN {label} ELSE {}
(* text is a sequence of one-character strings *)
Chars(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]
=============================================================================
