------------------------------ MODULE ObjTrace ------------------------------
(***************************************************************************)
(* Trace validation of sessions whose pattern and matcher objects came     *)
(* about in any way (saved and compiled FSM, copied, assigned, moved,      *)
(* reused) and that change pattern (Q) and input (R) on the way.  How an   *)
(* object came about is not part of the state: the behaviours are those of *)
(* Matcher.tla for the pattern in use.                                     *)
(***************************************************************************)
EXTENDS MatcherTrace

VARIABLE pi   \* the pattern in use
varsO == <<k, l, st, pi>>

InitO == Init /\ pi = 1

PO == [Sess[k].PS[pi] EXCEPT !.pref = IF Sess[k].PS[pi].tie /\ E0.o \in {"S", "F", "P"} THEN E0.r ELSE 0]

StepO ==
  /\ l >= 1 /\ l <= Len(Sess[k].ev) /\ k' = k
  /\ CASE E0.o = "Q" -> pi' = E0.a + 1 /\ l' = l + 1 /\ st' = [st EXCEPT !.stale = FALSE]
       [] E0.o = "R" -> pi' = pi /\ l' = l + 1 /\ st' = InitState(Sess[k].J[E0.a + 1], st.tab)
       [] OTHER ->
          /\ pi' = pi
          /\ IF ~Pre(st, E0) THEN l' = 0 /\ st' = st
             ELSE LET o == Expect(PO, Sess[k].O, st, E0)
                  IN IF Good(PO, o, E0) THEN st' = o.st /\ l' = l + 1
                     ELSE /\ PrintT(<<"REJECT", k, l, [r |-> o.r, x |-> o.x, f |-> o.st.txt, n |-> o.st.len]>>)
                          /\ l' = 0 /\ st' = st
=============================================================================
