----------------------------- MODULE SetsTrace -----------------------------
(* Recorded histories of set containers must be behaviours of Sets.tla.      *)
EXTENDS Sets, Json, IOUtils, TLC
Sess == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, l, A, B
vars == <<k, l, A, B>>
Init == k \in 1..Len(Sess) /\ l = 1 /\ A = <<>> /\ B = <<>>

\* e: [o: operation, x: register 0/1, y: register, a, b: run, q: 1 when the operation only makes a new container,
\*     r: answer, c: ranges of the container made, d: ranges of the other container after it, z: size]
Step ==
  /\ l >= 1 /\ l <= Len(Sess[k].ev)
  /\ k' = k
  /\ LET e == Sess[k].ev[l]
         bits == Sess[k].t = "bits"
         c == IF e.x = 0 THEN A ELSE B
         d == IF e.y = 0 THEN A ELSE B
         X == Members(c)
         Y == Members(d)
         bad(x) == PrintT(<<"REJECT", k, l, x>>) /\ l' = 0 /\ A' = A /\ B' = B
         S == After(e.o, X, Y, e.a, e.b, e.z)
         n == Answer(e.o, X, Y, c, d, e.a, e.b, bits, e.z)
     IN IF e.o \in Modifying
        THEN IF /\ Canonical(e.c) /\ Members(e.c) = S
                /\ e.r = -1 \/ e.r = Returned(e.o, X, e.a, e.b)
                /\ bits => e.z % 64 = 0 /\ \A x \in S : x < e.z
                \* the other container, or both after an expression, keep their contents
                /\ IF e.q = 1 THEN e.d = c ELSE IF e.x = e.y THEN TRUE ELSE e.d = (IF e.o = "swap" THEN c ELSE d)
             THEN /\ l' = l + 1
                  /\ IF e.q = 1 THEN A' = A /\ B' = B
                     ELSE IF e.o = "swap" /\ e.x # e.y THEN A' = B /\ B' = A
                     ELSE IF e.x = 0 THEN A' = e.c /\ B' = B ELSE B' = e.c /\ A' = A
             ELSE bad([set |-> Runs(S), r |-> Returned(e.o, X, e.a, e.b)])
        ELSE IF e.r = n THEN l' = l + 1 /\ A' = A /\ B' = B ELSE bad([set |-> <<>>, r |-> n])
Next == Step
TypeOK == Canonical(A) /\ Canonical(B)
=============================================================================
