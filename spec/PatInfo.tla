------------------------------ MODULE PatInfo ------------------------------
(***************************************************************************)
(* What a pattern reports about its subpatterns.  The specification        *)
(* automaton of Regex.tla is explored breadth first (seen, todo); when     *)
(* nothing is left to explore, the alternatives that are the accepted one  *)
(* in some explored state are the reachable ones.                          *)
(***************************************************************************)
EXTENDS Regex, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES k, seen, todo
vars == <<k, seen, todo>>

N == Cases[k].nodes

Init == /\ k \in 1..Len(Cases)
        /\ seen = {}
        /\ todo = { StartState(Cases[k].nodes, Cases[k].alts) }

Next == /\ todo # {}
        /\ seen' = seen \cup todo
        /\ todo' = { StepState(N, S, {}, Cases[k].reps[i]) : S \in todo, i \in 1..Len(Cases[k].reps) } \ seen'
        /\ k' = k

Reachable == { AccIdx(N, S, {}) : S \in seen } \ {0}

Reported == { i \in 1..Len(Cases[k].reach) : Cases[k].reach[i] = 1 }

\* size(), reachable(i) for every i (also beyond size()) and [i]
Problem ==
  IF Cases[k].size # Len(Cases[k].alts) THEN "size"
  ELSE IF Cases[k].sub # Cases[k].text THEN "sub"
  ELSE IF todo = {} /\ Reported # Reachable THEN "reach"
  ELSE ""

Ok == Problem = ""
OkReport == Ok \/ PrintT(<<"WRONG", k, Problem, IF todo = {} THEN Reachable ELSE {}>>)
=============================================================================
