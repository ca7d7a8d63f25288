-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Patterns at scale.  A pattern of many thousands of words (its machine   *)
(* needs more than 64K opcodes, hence long jumps): word i may be followed  *)
(* by a repetition of its last character (mode "+") or by an assertion     *)
(* (mode ">" end of word, "$" end of line); the last alternative is any    *)
(* one character outside of the words.  Words are found by bucket (the     *)
(* first three characters), a bucket is a sequence of <<word, index>>.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, pos, l
vars == <<k, pos, l>>

R == Runs[k]
I == R.text
E == R.ev

Letter(c) == c >= 97 /\ c <= 112

\* the bucket number of the word I[p+1..p+n]
Digit(p, n, i) == IF n >= i THEN I[p + i] - 96 ELSE 0
Bucket(p, n) == 1 + 289 * Digit(p, n, 1) + 17 * Digit(p, n, 2) + Digit(p, n, 3)

Indices(p, n) == LET W == SubSeq(I, p + 1, p + n)
                     B == R.buckets[Bucket(p, n)]
                 IN { B[j][2] : j \in { j \in 1..Len(B) : B[j][1] = W } }

\* how many letters follow position p
RECURSIVE Span(_)
Span(p) == IF p < Len(I) /\ Letter(I[p + 1]) /\ p < pos + 40 THEN 1 + Span(p + 1) ELSE 0

After(q) == CASE R.mode = ">" -> q = Len(I) \/ ~Letter(I[q + 1])
              [] R.mode = "$" -> q = Len(I) \/ I[q + 1] = 10
              [] OTHER -> TRUE

\* indices of the words that match exactly I[p+1..p+n]
Matching(p, n) ==
  IF ~After(p + n) THEN {}
  ELSE IF R.mode = "+"
       THEN UNION { Indices(p, j) : j \in { j \in 1..n : \A i \in j + 1..n : I[p + i] = I[p + j] } }
       ELSE Indices(p, n)

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

\* the longest match at position p: <<alternative, length>> or <<0, 0>>
Longest(p) ==
  IF p >= Len(I) THEN <<0, 0>>
  ELSE IF ~Letter(I[p + 1]) THEN <<R.count + 1, 1>>
  ELSE LET S == Span(p)
           L == { n \in 1..S : Matching(p, n) # {} }
       IN IF L = {} THEN <<0, 0>> ELSE LET n == Max(L) IN <<Min(Matching(p, n)), n>>

RECURSIVE First(_)
First(p) == IF p >= Len(I) THEN <<0, 0, Len(I)>>
            ELSE LET m == Longest(p) IN IF m[1] # 0 THEN <<m[1], m[2], p>> ELSE First(p + 1)

Expected == IF R.op = "F" THEN First(pos) ELSE LET m == Longest(pos) IN <<m[1], m[2], pos>>

\* "i": input() skips one character after a failed match
Good == LET x == Expected IN
     \/ E[l].o = "i"
     \/ 
        /\ E[l].r = x[1]
        /\ x[1] # 0 => E[l].n = x[2] /\ E[l].f = x[3]

Init == k \in 1..Len(Runs) /\ pos = 0 /\ l = 1
Next == /\ l <= Len(E)
        /\ LET x == Expected IN
           /\ E[l].o = "i" \/ x[1] # 0 \/ R.op = "S"
           /\ pos' = IF E[l].o = "i" THEN (IF pos < Len(I) THEN pos + 1 ELSE pos) ELSE IF x[1] = 0 THEN pos ELSE x[3] + x[2]
        /\ l' = l + 1
        /\ k' = k

OkReport == \/ l > Len(E)
            \/ Good
            \/ PrintT(<<"WRONG", k, l, Expected>>)
=============================================================================
