---------------------------- MODULE SyntaxTrace ----------------------------
(* Recorded answers of the regex converter and compiler against RegexSyntax. *)
EXTENDS RegexSyntax, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES k, n
Step == 500
Init == /\ k \in { x \in 1..Len(Cases) : x % Step = 1 }
        /\ n = 0
Next == /\ n + 1 < Step /\ k < Len(Cases)
        /\ k' = k + 1 /\ n' = n + 1

C == Cases[k]
Spec == Verdicts(C.s)

\* v: answer of convert and compile; d: answer of compile alone; p, m: error position and length of the regex it refers to
Problem ==
  IF C.v \notin Spec THEN "convert"
  ELSE IF C.p > C.m THEN "position"
  \* the compiler alone is more permissive; it must accept what is well formed and reject what is not closed
  ELSE IF C.dd = 1 /\ Spec = {"ok"} /\ C.d # "ok" THEN "compile"
  ELSE IF C.dd = 1 /\ Spec \subseteq {"paren", "bracket", "quote", "escape", "mod"} /\ C.d = "ok" THEN "compile"
  ELSE ""

Ok == Problem = ""
OkReport == Ok \/ PrintT(<<"WRONG", k, Problem, Spec>>)
=============================================================================
