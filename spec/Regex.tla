------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Semantics of the regular expressions a RE/flex pattern is made of.      *)
(*                                                                         *)
(* A regex is a table N of nodes.  A TERM <<id, lo, hi>> denotes node id;  *)
(* lo/hi are the remaining repetition counts of a "rep" node (hi = -1:     *)
(* unbounded).  A CONTINUATION is a sequence of terms still to be matched. *)
(* The state of the specification automaton is a set of continuations.     *)
(* C is the set of zero-width assertions that hold at the current input    *)
(* position (begin of line, word boundary ...).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Term(N, id) == IF N[id].op = "rep" THEN <<id, N[id].lo, N[id].hi>> ELSE <<id, 0, 0>>

\* the term matches the empty string (under assertions C)
RECURSIVE Null(_, _, _)
Null(N, t, C) ==
  LET n == N[t[1]] IN
  CASE n.op = "leaf"   -> FALSE
    [] n.op = "eps"    -> TRUE
    [] n.op = "assert" -> n.kind \in C
    [] n.op = "cat"    -> \A i \in 1..Len(n.kids) : Null(N, Term(N, n.kids[i]), C)
    [] n.op = "alt"    -> \E i \in 1..Len(n.kids) : Null(N, Term(N, n.kids[i]), C)
    [] n.op = "rep"    -> t[2] = 0 \/ Null(N, Term(N, n.kids[1]), C)

Dec(i) == IF i > 0 THEN i - 1 ELSE i

\* continuations of term t that start with a leaf
RECURSIVE First(_, _, _)
RECURSIVE FirstCat(_, _, _)
First(N, t, C) ==
  LET n == N[t[1]] IN
  CASE n.op = "leaf"   -> {<<t>>}
    [] n.op = "eps"    -> {}
    [] n.op = "assert" -> {}
    [] n.op = "cat"    -> FirstCat(N, [i \in 1..Len(n.kids) |-> Term(N, n.kids[i])], C)
    [] n.op = "alt"    -> UNION { First(N, Term(N, n.kids[i]), C) : i \in 1..Len(n.kids) }
    [] n.op = "rep"    ->
         IF t[3] = 0 THEN {}
         ELSE LET k == Term(N, n.kids[1])
                  \* empty iterations can stand for the missing mandatory ones
                  lo == IF Null(N, k, C) THEN 0 ELSE Dec(t[2])
                  rest == <<t[1], lo, Dec(t[3])>>
              IN  { x \o (IF rest[3] = 0 THEN <<>> ELSE <<rest>>) : x \in First(N, k, C) }
FirstCat(N, s, C) ==
  IF s = <<>> THEN {}
  ELSE { x \o Tail(s) : x \in First(N, Head(s), C) }
       \cup (IF Null(N, Head(s), C) THEN FirstCat(N, Tail(s), C) ELSE {})

NullSeq(N, s, C) == \A i \in 1..Len(s) : Null(N, s[i], C)

InSet(set, c) == \E i \in 1..Len(set) : set[i][1] <= c /\ c <= set[i][2]

\* ---- automaton of a list of alternatives (regex1 | regex2 | ...), alts = root ids
\* state: set of <<alternative, continuation>>
StartState(N, alts) == { <<a, <<Term(N, alts[a])>>>> : a \in 1..Len(alts) }

StepState(N, S, C, c) ==
  UNION { { <<x[1], Tail(y)>> : y \in { z \in FirstCat(N, x[2], C) : InSet(N[Head(z)[1]].set, c) } } : x \in S }

\* alternatives accepting here
AccSet(N, S, C) == { x[1] : x \in { y \in S : NullSeq(N, y[2], C) } }
Min(S) == CHOOSE m \in S : \A y \in S : m <= y
AccIdx(N, S, C) == LET A == AccSet(N, S, C) IN IF A = {} THEN 0 ELSE Min(A)

\* A lazily quantified alternative matches as little as possible: a word of the alternative that
\* extends a shorter word of it is not matched, so when it accepts nothing of it remains to be matched.
LazyTrim(N, S, C, lazy) ==
  IF lazy = <<>> THEN S
  ELSE LET done == AccSet(N, S, C) \cap { lazy[i] : i \in 1..Len(lazy) }
       IN  { x \in S : x[1] \notin done }
=============================================================================
