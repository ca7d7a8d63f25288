----------------------------- MODULE SetsModel -----------------------------
(* Exhaustive model of two containers over a small universe: the laws that  *)
(* make Sets.tla a set algebra hold in every reachable state.               *)
EXTENDS Sets, TLC
CONSTANT N
U == 0..N
VARIABLES A, B
Init == A = {} /\ B = {}
Ops == {"insert", "erase", "flip"}
Bin == {"or", "and", "sub", "xor", "assign"}
Next == \/ \E o \in Ops, a, b \in U : a <= b /\ A' = After(o, A, B, a, b, N + 1) /\ B' = B
        \/ \E o \in Bin : A' = After(o, A, B, 0, 0, N + 1) /\ B' = B
        \/ A' = After("flipall", A, B, 0, 0, N + 1) /\ B' = B
        \/ A' = B /\ B' = A
Q(o, X, Y) == Answer(o, X, Y, Runs(X), Runs(Y), 0, 0, FALSE, N + 1)
QB(o, X, Y) == Answer(o, X, Y, Runs(X), Runs(Y), 0, 0, TRUE, N + 1)
F(o, X, Y) == After(o, X, Y, 0, 0, N + 1)
Laws ==
  /\ A \subseteq U /\ B \subseteq U
  /\ Canonical(Runs(A)) /\ Members(Runs(A)) = A
  \* one representation per set: equal sets, and only those, have equal runs
  /\ (Runs(A) = Runs(B)) <=> A = B
  \* the order is total and agrees with equality
  /\ Q("lt", A, B) + Q("gt", A, B) + Q("eq", A, B) = 1
  /\ QB("lt", A, B) + QB("gt", A, B) + QB("eq", A, B) = 1
  /\ Q("le", A, B) = 1 - Q("gt", A, B) /\ Q("ge", A, B) = 1 - Q("lt", A, B)
  /\ Q("intersects", A, B) = Q("any", F("and", A, B), {}) /\ Q("intersects", A, B) = 1 - Q("disjoint", A, B)
  /\ (Q("contains", A, B) = 1) <=> F("or", A, B) = A
  /\ (Q("contains", A, B) = 1) <=> F("and", A, B) = B
  /\ Q("contains", A, B) = Q("subset", B, A)
  /\ F("sub", A, B) = F("and", A, F("flipall", B, {}))
  /\ F("xor", A, B) = F("or", F("sub", A, B), F("sub", B, A))
  /\ F("flipall", F("flipall", A, {}), {}) = A
  /\ Q("count", A, B) + Q("count", F("flipall", A, {}), B) = N + 1
  /\ \A a, b \in U : a <= b =>
       /\ (Answer("find", A, B, Runs(A), Runs(B), a, b, FALSE, N + 1) > 0) <=> A \cap (a .. b) # {}
       /\ After("erase", A, B, a, b, N + 1) = A \ After("insert", {}, B, a, b, N + 1)
       /\ (Returned("insert", A, a, b) = 1) <=> After("insert", A, B, a, b, N + 1) # A
       /\ (Returned("erase", A, a, b) = 1) <=> After("erase", A, B, a, b, N + 1) # A
=============================================================================
