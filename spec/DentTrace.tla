------------------------------ MODULE DentTrace ------------------------------
(* Recorded indentation matching sessions must be behaviours of Dent.tla.    *)
EXTENDS Dent, Json, IOUtils, TLC
Sess == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, l, st
vars == <<k, l, st>>
Init == k \in 1..Len(Sess) /\ l = 1 /\ st = InitDent(Sess[k].R.tab)

\* the accept indices that report a kind of match; two dedent rules, and the last level at the left margin may be either
Kind(R, r) == R.kinds[r + 1]

E0 == Sess[k].ev[l]
\* e: [o: operation, a: argument, r: accept, x: text, f: first, s: stops after it]
Step ==
  /\ l >= 1 /\ l <= Len(Sess[k].ev)
  /\ k' = k
  /\ LET R == Sess[k].R
         I == Sess[k].I
         e == E0
         bad(x) == PrintT(<<"REJECT", k, l, x>>) /\ l' = 0 /\ st' = st
     IN CASE e.o \in {"S", "F"} ->
               LET m == NextDent(R, I, st) IN
               IF m.k = "bad" THEN l' = 0 /\ st' = st
               ELSE IF /\ m.k = Kind(R, e.r)
                       /\ m.k = "eof" \/ (e.f = m.f /\ e.x = SubSeq(I, m.f + 1, m.f + m.n))
                       /\ e.s = m.st.stops
                    THEN st' = m.st /\ l' = l + 1
                    ELSE bad([kind |-> m.k, f |-> m.f, n |-> m.n, stops |-> m.st.stops])
          \* the stops are not to be changed while levels are still to be dedented
          [] st.ded > 0 -> l' = 0 /\ st' = st
          [] OTHER ->
               LET t == CASE e.o = "i" -> InsertStop(st, e.a)
                          [] e.o = "d" -> DeleteStop(st, e.a)
                          [] e.o = "c" -> ClearStops(st)
                          [] e.o = "p" -> PushStops(st)
                          [] e.o = "o" -> IF st.stk = <<>> THEN st ELSE PopStops(st)
                          [] e.o = "T" -> [st EXCEPT !.tab = e.a]
               IN IF e.s = t.stops /\ e.r = Last(t.stops) THEN st' = t /\ l' = l + 1 ELSE bad([kind |-> e.o, f |-> 0, n |-> 0, stops |-> t.stops])
Next == Step
TypeOK == Sorted(st.stops) /\ st.pos <= Len(Sess[k].I) /\ st.ded >= 0
=============================================================================
