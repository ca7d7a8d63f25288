-------------------------------- MODULE Sets --------------------------------
(* The set containers: sets of ranges (closed, and open-ended over ordinal   *)
(* values), bit sets, and the operations on ordered sets.                    *)
(*                                                                           *)
(* A container stands for a set of integers and is represented by the        *)
(* sequence of its maximal runs <<lo, hi>>, ascending: this is what          *)
(* iterating over the container shows.  Closed ranges over a dense type are  *)
(* represented at twice the scale: [a, b] is the run 2a..2b, and the odd     *)
(* points stand for the values between two neighbouring bounds, so that      *)
(* [1,2] and [3,4] do not touch, while [1,2] and [2,3] merge.                *)
EXTENDS Integers, Sequences, FiniteSets

Members(c) == UNION { c[i][1] .. c[i][2] : i \in 1..Len(c) }
Canonical(c) ==
  /\ \A i \in 1..Len(c) : c[i][1] <= c[i][2]
  /\ \A i \in 1..(Len(c) - 1) : c[i][2] + 1 < c[i + 1][1]

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

RECURSIVE Runs(_)
Runs(S) ==
  IF S = {} THEN <<>>
  ELSE LET lo == Min(S)
           hi == Min({ y \in S : y >= lo /\ y + 1 \notin S })
       IN << <<lo, hi>> >> \o Runs({ y \in S : y > hi })

\* lexicographic order of ranges: bound by bound, a proper prefix comes first
RECURSIVE LexLess(_, _)
LexLess(c, d) ==
  IF c = <<>> THEN d # <<>>
  ELSE IF d = <<>> THEN FALSE
  ELSE IF c[1][1] # d[1][1] THEN c[1][1] < d[1][1]
  ELSE IF c[1][2] # d[1][2] THEN c[1][2] < d[1][2]
  ELSE LexLess(Tail(c), Tail(d))

\* order of bit sets: the first 64-bit word that differs, compared as a number
Word(x) == x \div 64
BitLess(S, T) ==
  LET D == (S \ T) \cup (T \ S) IN
  IF D = {} THEN FALSE
  ELSE LET w == Word(Min(D)) IN Max({ x \in D : Word(x) = w }) \in T

(* ---- one step: register x of containers X, Y, operation o, run a..b ---- *)
\* the set that x has after a modifying operation
After(o, X, Y, a, b, size) ==
  CASE o = "insert" -> X \cup (a .. b)
    [] o = "erase"  -> X \ (a .. b)
    [] o = "flip"   -> (X \ (a .. b)) \cup ((a .. b) \ X)
    [] o = "flipall" -> (0 .. (size - 1)) \ X
    [] o = "or"     -> X \cup Y
    [] o = "and"    -> X \cap Y
    [] o = "sub"    -> X \ Y
    [] o = "xor"    -> (X \ Y) \cup (Y \ X)
    [] o = "assign" -> Y
    [] o = "swap"   -> Y
    [] o = "clear"  -> {}
    [] o = "lshift" -> { x + 1 : x \in X }
    [] o = "rshift" -> { x - 1 : x \in X \ {0} }
    [] o = "set"    -> IF b = 1 THEN X \cup {a} ELSE X \ {a}
    [] o = "bitor"  -> IF b = 1 THEN X \cup {a} ELSE X
    [] o = "bitand" -> IF b = 1 THEN X ELSE X \ {a}
    [] o = "bitxor" -> IF b = 0 THEN X ELSE IF a \in X THEN X \ {a} ELSE X \cup {a}
Modifying == {"insert", "erase", "flip", "flipall", "or", "and", "sub", "xor", "assign", "swap", "clear", "lshift", "rshift",
              "set", "bitor", "bitand", "bitxor"}

\* the answer of a query as an integer
Bool(p) == IF p THEN 1 ELSE 0
Answer(o, X, Y, c, d, a, b, bits, size) ==
  CASE o = "any"        -> Bool(X # {})
    [] o = "intersects" -> Bool(X \cap Y # {})
    [] o = "disjoint"   -> Bool(X \cap Y = {})
    [] o = "contains"   -> Bool(Y \subseteq X)
    [] o = "subset"     -> Bool(X \subseteq Y)
    [] o = "has"        -> Bool(a \in X)
    [] o = "eq"         -> Bool(X = Y)
    [] o = "ne"         -> Bool(X # Y)
    [] o = "lt"         -> Bool(IF bits THEN BitLess(X, Y) ELSE LexLess(c, d))
    [] o = "gt"         -> Bool(IF bits THEN BitLess(Y, X) ELSE LexLess(d, c))
    [] o = "le"         -> Bool(~(IF bits THEN BitLess(Y, X) ELSE LexLess(d, c)))
    [] o = "ge"         -> Bool(~(IF bits THEN BitLess(X, Y) ELSE LexLess(c, d)))
    [] o = "lo"         -> IF X = {} THEN -1 ELSE Min(X)
    [] o = "hi"         -> IF X = {} THEN -1 ELSE Max(X)
    [] o = "count"      -> Cardinality(X)
    [] o = "all"        -> Bool(\A x \in 0 .. (size - 1) : x \in X)
    [] o = "first"      -> IF X = {} THEN -1 ELSE Min(X)
    [] o = "next"       -> LET N == { x \in X : x > a } IN IF N = {} THEN -1 ELSE Min(N)
    \* 1 plus the number of the first range that overlaps a..b, 0: none
    [] o = "find"       -> LET N == { i \in 1..Len(c) : c[i][1] <= b /\ a <= c[i][2] } IN IF N = {} THEN 0 ELSE Min(N)

\* what a modifying operation returns: whether it changed something; -1: nothing
Returned(o, X, a, b) ==
  CASE o = "insert" -> Bool(~((a .. b) \subseteq X))
    [] o = "erase"  -> Bool(X \cap (a .. b) # {})
    [] o = "set"    -> b
    [] o = "bitor"  -> Bool(b = 1 \/ a \in X)
    [] o = "bitand" -> Bool(b = 1 /\ a \in X)
    [] o = "bitxor" -> Bool((b = 1) # (a \in X))
    [] OTHER -> -1
=============================================================================
