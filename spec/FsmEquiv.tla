------------------------------ MODULE FsmEquiv ------------------------------
(***************************************************************************)
(* Product of the implementation's compiled finite state machine (decoded  *)
(* from the opcode table that reflex::Pattern emits) and the specification *)
(* automaton of Regex.tla.  TLC explores every reachable pair for every    *)
(* byte class, so agreement in all reachable pairs is agreement on inputs  *)
(* of every length.                                                        *)
(***************************************************************************)
EXTENDS Regex, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES k, q, S
vars == <<k, q, S>>

Init == /\ k \in 1..Len(Cases)
        /\ q = 1
        /\ S = StartState(Cases[k].nodes, Cases[k].alts)

\* first matching edge wins, no edge: dead
Target(edges, c) ==
  LET hit == { i \in 1..Len(edges) : edges[i][1] <= c /\ c <= edges[i][2] }
  IN  IF hit = {} THEN 0 ELSE edges[Min(hit)][3]

ImplStep(c) == IF q = 0 THEN 0 ELSE Target(Cases[k].dfa[q].edges, c)

Next == \E i \in 1..Len(Cases[k].reps) :
          LET c == Cases[k].reps[i] IN
          /\ q # 0 \/ S # {}
          /\ q' = ImplStep(c)
          /\ S' = StepState(Cases[k].nodes, LazyTrim(Cases[k].nodes, S, {}, Cases[k].lazy), {}, c)
          /\ k' = k

ImplAcc == IF q = 0 THEN 0 ELSE Cases[k].dfa[q].acc
SpecAcc == AccIdx(Cases[k].nodes, S, {})

\* the compiled machine accepts exactly the alternative the regex semantics does
Agree == ImplAcc = SpecAcc
AgreeReport == Agree \/ PrintT(<<"MISMATCH", k, q, ImplAcc, SpecAcc>>)
=============================================================================
