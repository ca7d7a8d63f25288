-------------------------------- MODULE Dent --------------------------------
(***************************************************************************)
(* Indentation matching: the documented layout rules                       *)
(*      ^M+    nodent     ^M+\i  indent    ^M*\j  dedent    \j  dedent     *)
(*      (?^^M*\n)   blank lines (optional)                                 *)
(*      (?^\\\nM+)  line continuation (optional)                           *)
(*      M*#\k? or ^M*#\k and M*#   comment lines (optional)                *)
(*      any character (scan) or letters only (find)                        *)
(* over a margin character set M, and the operations on the indent stops.  *)
(* The checked traces come from the real matcher, see DentTrace.           *)
(*                                                                         *)
(* State: pos, stops (increasing columns), ded (levels still to be         *)
(* dedented), stk (pushed stops), tab                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

InitDent(T) == [pos |-> 0, stops |-> <<>>, ded |-> 0, stk |-> <<>>, tab |-> T]

Has(set, c) == \E i \in 1..Len(set) : set[i] = c
Last(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]

RECURSIVE RunEnd(_, _, _)
RunEnd(I, M, p) == IF p < Len(I) /\ Has(M, I[p + 1]) THEN RunEnd(I, M, p + 1) ELSE p
RECURSIVE ColAt(_, _, _, _, _)
ColAt(I, a, b, k, T) == IF a = b THEN k ELSE ColAt(I, a + 1, b, IF I[a + 1] = 9 THEN (k \div T + 1) * T ELSE k + 1, T)

Bol(I, p) == p = 0 \/ I[p] = 10
Byte(I, p) == IF p < Len(I) THEN I[p + 1] ELSE -1

\* stops that are kept when the margin is at column c
Keep(stops, c) == SelectSeq(stops, LAMBDA x : x <= c)

\* the stops must be aligned: c is a stop, zero or beyond the last stop
Aligned(stops, c) == c = 0 \/ c > Last(stops) \/ Has(stops, c)

\* next match: [st, k: kind, f: first, n: length];  kinds: "nodent" "indent" "dedent" "comment" "undent" "char" "eof" "none"
\* "bad": a margin that is not aligned, nothing is specified from there on
Res(s, kind, f, n) == [st |-> s, k |-> kind, f |-> f, n |-> n]
RECURSIVE NextDent(_, _, _)
NextDent(R, I, s) ==
  LET p == s.pos
      q == RunEnd(I, R.M, p)
      bol == Bol(I, p)
      c == ColAt(I, p, q, 0, s.tab)
      go(e) == [s EXCEPT !.pos = e]
  IN IF s.ded > 0
     THEN Res([s EXCEPT !.ded = @ - 1], "dedent", p, 0)
     \* line continuation: backslash, newline and a margin are not part of the input
     ELSE IF R.cont /\ Byte(I, p) = 92 /\ Byte(I, p + 1) = 10 /\ Has(R.M, Byte(I, p + 2))
     THEN NextDent(R, I, go(RunEnd(I, R.M, p + 2)))
     ELSE IF bol /\ R.blank /\ Byte(I, q) = 10
     THEN NextDent(R, I, go(q + 1))
     ELSE IF R.comment > 0 /\ Byte(I, q) = 35
     THEN IF R.comment = 2 /\ bol /\ c # Last(s.stops)
          THEN Res(go(q + 1), "undent", p, q + 1 - p)
          ELSE Res(go(q + 1), "comment", p, q + 1 - p)
     \* not specified: margins that are not aligned; a margin that the input ends with (see known findings)
     ELSE IF bol /\ (~Aligned(s.stops, c) \/ (q > p /\ q = Len(I) /\ ~R.eofmargin))
     THEN Res(s, "bad", p, 0)
     ELSE IF bol /\ c > Last(s.stops)
     THEN Res([go(q) EXCEPT !.stops = Append(@, c)], "indent", p, q - p)
     ELSE IF bol /\ c < Last(s.stops)
     THEN LET k == Keep(s.stops, c)
          IN Res([go(q) EXCEPT !.stops = k, !.ded = Len(s.stops) - Len(k) - 1], "dedent", p, q - p)
     ELSE IF bol /\ q > p
     THEN Res(go(q), "nodent", p, q - p)
     ELSE IF p = Len(I)
     THEN Res(s, "eof", p, 0)
     ELSE IF Has(R.skip, Byte(I, p))
     THEN NextDent(R, I, go(p + 1))
     ELSE Res(go(p + 1), "char", p, 1)

\* operations on the stops

Insert(s, n) == IF n = 0 \/ Has(s, n) THEN s
                ELSE SelectSeq(s, LAMBDA x : x < n) \o <<n>> \o SelectSeq(s, LAMBDA x : x > n)
Delete(s, n) == SelectSeq(s, LAMBDA x : x < n)
InsertStop(s, n) == [s EXCEPT !.stops = Insert(@, n)]
DeleteStop(s, n) == [s EXCEPT !.stops = Delete(@, n)]
ClearStops(s) == [s EXCEPT !.stops = <<>>]
PushStops(s) == [s EXCEPT !.stk = Append(@, s.stops), !.stops = <<>>]
PopStops(s) == [s EXCEPT !.stops = s.stk[Len(s.stk)], !.stk = SubSeq(@, 1, Len(@) - 1)]

Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
=============================================================================
