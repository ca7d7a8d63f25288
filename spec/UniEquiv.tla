------------------------------ MODULE UniEquiv ------------------------------
(***************************************************************************)
(* Meaning of regexes over code points, read byte by byte as UTF-8.        *)
(* A leaf of kind "cp" consumes one well-formed UTF-8 encoding of a code   *)
(* point in its set; a leaf of kind "" consumes one byte.  The product     *)
(* with the machine that the library compiles from its translation of the  *)
(* regex is explored over all byte strings (mode "strict") or over all     *)
(* well-formed UTF-8 (mode "valid", for what is deliberately lenient on    *)
(* malformed input), where agreement is required between characters.       *)
(***************************************************************************)
EXTENDS Regex, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES k, q, S, u
vars == <<k, q, S, u>>

Scalars == << <<0, 55295>>, <<57344, 1114111>> >>

Pow(r) == CASE r = 0 -> 1 [] r = 1 -> 64 [] r = 2 -> 4096 [] OTHER -> 262144
MinOf(t) == CASE t = 1 -> 0 [] t = 2 -> 128 [] t = 3 -> 2048 [] OTHER -> 65536
Max2(a, b) == IF a > b THEN a ELSE b

\* first range (sets are sorted and disjoint) that ends at or after x, Len(set) + 1 if there is none
RECURSIVE Find(_, _, _, _)
Find(set, x, a, b) == IF a = b THEN a
                      ELSE LET m == (a + b) \div 2 IN
                           IF set[m][2] >= x THEN Find(set, x, a, m) ELSE Find(set, x, m + 1, b)

\* value v with r bytes to come of an encoding of t bytes can still become a member of the set
Viable(set, v, r, t) ==
  LET lo == Max2(v * Pow(r), MinOf(t))
      hi == v * Pow(r) + Pow(r) - 1
      i  == Find(set, lo, 1, Len(set) + 1)
  IN lo <= hi /\ i <= Len(set) /\ set[i][1] <= hi

\* decoder states <<v, r, t>>, <<0, 0, 0>> between characters; set of successors (empty or singleton)
None == <<0, 0, 0>>
Start(c) == IF c < 128 THEN <<c, 0, 1>>
            ELSE IF c >= 194 /\ c < 224 THEN <<c - 192, 1, 2>>
            ELSE IF c >= 224 /\ c < 240 THEN <<c - 224, 2, 3>>
            ELSE IF c >= 240 /\ c < 245 THEN <<c - 240, 3, 4>>
            ELSE <<0, -1, 0>>
Dec1(d, c) ==
  IF d[2] = 0 THEN Start(c)
  ELSE IF c >= 128 /\ c < 192 THEN <<d[1] * 64 + (c - 128), d[2] - 1, d[3]>>
  ELSE <<0, -1, 0>>
Decode(set, d, c) ==
  LET e == Dec1(d, c) IN
  IF e[2] < 0 \/ ~Viable(set, e[1], e[2], e[3]) THEN {} ELSE {e}

\* items <<alternative, continuation, decoder>>
Start0(N, alts) == { <<a, <<Term(N, alts[a])>>, None>> : a \in 1..Len(alts) }

Advance(a, z, set, d, c) ==
  { IF e[2] = 0 THEN <<a, Tail(z), None>> ELSE <<a, z, e>> : e \in Decode(set, d, c) }

StepItem(N, x, c) ==
  IF x[3][2] > 0
  THEN Advance(x[1], x[2], N[Head(x[2])[1]].set, x[3], c)
  ELSE UNION { LET n == N[Head(z)[1]] IN
               IF n.kind = "cp" THEN Advance(x[1], z, n.set, None, c)
               ELSE IF InSet(n.set, c) THEN {<<x[1], Tail(z), None>>} ELSE {}
             : z \in FirstCat(N, x[2], {}) }

StepU(N, T, c) == UNION { StepItem(N, x, c) : x \in T }

Acc(N, T) == LET A == { x[1] : x \in { y \in T : y[3][2] = 0 /\ NullSeq(N, y[2], {}) } }
             IN IF A = {} THEN 0 ELSE Min(A)

Target(edges, c) ==
  LET hit == { i \in 1..Len(edges) : edges[i][1] <= c /\ c <= edges[i][2] }
  IN  IF hit = {} THEN 0 ELSE edges[Min(hit)][3]

Init == /\ k \in 1..Len(Cases)
        /\ q = 1
        /\ S = Start0(Cases[k].nodes, Cases[k].alts)
        /\ u = None

Next == \E i \in 1..Len(Cases[k].reps) :
          LET c == Cases[k].reps[i] IN
          /\ q # 0 \/ S # {}
          /\ IF Cases[k].valid
             THEN \E e \in Decode(Scalars, u, c) : u' = IF e[2] = 0 THEN None ELSE e
             ELSE u' = u
          /\ q' = IF q = 0 THEN 0 ELSE Target(Cases[k].dfa[q].edges, c)
          /\ S' = StepU(Cases[k].nodes, S, c)
          /\ k' = k

ImplAcc == IF q = 0 THEN 0 ELSE Cases[k].dfa[q].acc
SpecAcc == Acc(Cases[k].nodes, S)

\* the machine accepts exactly what the regex means
Agree == u[2] # 0 \/ ImplAcc = SpecAcc
AgreeReport == Agree \/ PrintT(<<"MISMATCH", k, q, ImplAcc, SpecAcc>>)
=============================================================================
