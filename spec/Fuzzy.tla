------------------------------- MODULE Fuzzy -------------------------------
(***************************************************************************)
(* Fuzzy matching: a text matches a pattern with e errors when e edits of  *)
(* characters turn a word of the pattern into the text.  The specification *)
(* automaton of Regex.tla runs with an error count per continuation;       *)
(* F.ins, F.del and F.sub say which edits are allowed.  NUL and newline in *)
(* the text are never inserted or substituted.                             *)
(*                                                                         *)
(* A recorded session is a sequence of matches; event l is read character  *)
(* by character (i), S is the set of <<alternative, continuation, errors>> *)
(***************************************************************************)
EXTENDS Regex, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES k, l, i, S, pos
vars == <<k, l, i, S, pos>>

F == Cases[k]
N == F.nodes
E == F.ev[l]

Prune(T) == { x \in T : ~\E y \in T : y[1] = x[1] /\ y[2] = x[2] /\ y[3] < x[3] }

\* characters of the pattern that are missing in the text
RECURSIVE Close(_, _)
Close(T, n) ==
  IF n = 0 \/ ~F.del THEN T
  ELSE LET D == UNION { { <<x[1], Tail(y), x[3] + 1>> : y \in FirstCat(N, x[2], {}) } : x \in { z \in T : z[3] < F.max } }
       IN  IF D \subseteq T THEN T ELSE Close(Prune(T \cup D), n - 1)

Start == Close({ <<a, <<Term(N, F.alts[a])>>, 0>> : a \in 1..Len(F.alts) }, F.max)

Keep(T, c) == UNION { { <<x[1], Tail(y), x[3]>> : y \in { z \in FirstCat(N, x[2], {}) : InSet(N[Head(z)[1]].set, c) } } : x \in T }
Subst(T, c) == UNION { { <<x[1], Tail(y), x[3] + 1>> : y \in FirstCat(N, x[2], {}) } : x \in { z \in T : z[3] < F.max } }
Insert(T, c) == { <<x[1], x[2], x[3] + 1>> : x \in { z \in T : z[3] < F.max } }

Read(T, c) ==
  Close(Prune(Keep(T, c) \cup (IF F.sub /\ c \notin {0, 10} THEN Subst(T, c) ELSE {})
                         \cup (IF F.ins /\ c \notin {0, 10} THEN Insert(T, c) ELSE {})), F.max)

Accepting(T) == { x \in T : NullSeq(N, x[2], {}) }

\* text of the match of event l: what is matched, or for split what lies between the pieces
Begin(m) == IF m.o = "P" THEN m.f + m.n ELSE m.f
End(j) == IF F.ev[j].o = "P" THEN (IF j < Len(F.ev) THEN F.ev[j + 1].f ELSE Len(F.I)) ELSE F.ev[j].f + F.ev[j].n
EMPTY == 2000000001
Matched == E.r \notin {0, EMPTY}
Text == IF E.o = "M" THEN F.I ELSE SubSeq(F.I, Begin(E) + 1, End(l))

Init == /\ k \in 1..Len(Cases)
        /\ l = 1 /\ i = 0 /\ pos = 0
        /\ S = Start

More == l <= Len(F.ev) /\ (Matched \/ E.o = "M") /\ i < Len(Text)
ReadNext == /\ More
            /\ S' = Read(S, Text[i + 1])
            /\ i' = i + 1
            /\ UNCHANGED <<k, l, pos>>
Finish == /\ l <= Len(F.ev) /\ ~More
          /\ l' = l + 1 /\ i' = 0 /\ S' = Start
          /\ pos' = IF E.o = "M" \/ ~Matched THEN pos ELSE End(l)
          /\ k' = k
Next == ReadNext \/ Finish

\* an exact match inside I[a+1..b]
RECURSIVE RunTo(_, _, _)
RunTo(T, p, b) == AccSet(N, T, {}) # {} \/ (p < b /\ T # {} /\ RunTo(StepState(N, T, {}, F.I[p + 1]), p + 1, b))
ExactIn(a, b) == \E p \in a..(b - 1) : RunTo(StepState(N, StartState(N, F.alts), {}, F.I[p + 1]), p + 1, b)

Best(T) == IF T = {} THEN 999 ELSE Min({ x[3] : x \in T })

\* checked when the text of event l is read
Problem ==
  IF l > Len(F.ev) \/ More THEN ""
  ELSE LET A == Accepting(S)
           Z == { x \in A : x[3] = 0 }
           idx == IF Z = {} THEN 0 ELSE Min({ x[1] : x \in Z })
       IN
       IF E.o = "M" THEN
         IF E.r # 0 /\ ~(E.e <= F.max /\ \E x \in A : x[1] = E.r /\ x[3] <= E.e) THEN "not within the edits"
         ELSE IF Z # {} /\ (E.r # idx \/ E.e # 0) THEN "exact match"
         ELSE IF F.full /\ A # {} /\ E.r = 0 THEN "missed"
         ELSE ""
       ELSE IF E.r = 0 /\ E.o = "P" THEN IF l > 1 /\ F.ev[l - 1].r # EMPTY THEN "no last piece" ELSE ""
       ELSE IF E.f < pos THEN "position"
       ELSE IF E.x # SubSeq(F.I, E.f + 1, E.f + E.n) THEN "text"
       ELSE IF E.o = "P" /\ E.f # pos THEN "piece"
       ELSE IF E.o = "P" /\ ExactIn(E.f, E.f + E.n) THEN "match in piece"
       ELSE IF E.o = "P" /\ E.r = EMPTY /\ E.f + E.n # Len(F.I) THEN "end"
       ELSE IF E.o = "F" /\ ExactIn(pos, IF E.r = 0 THEN Len(F.I) ELSE E.f) THEN "match skipped"
       ELSE IF Matched /\ (Text = <<>> \/ ~(E.e <= F.max /\ \E x \in A : x[1] = E.r /\ x[3] <= E.e)) THEN "not within the edits"
       ELSE IF Matched /\ E.e = 0 /\ E.r # idx THEN "index"
       ELSE ""

Ok == Problem = ""
OkReport == Ok \/ PrintT(<<"WRONG", k, l, Problem>>)
=============================================================================
