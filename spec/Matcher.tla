------------------------------- MODULE Matcher -------------------------------
(***************************************************************************)
(* Specification of the pattern matcher interface (reflex::AbstractMatcher *)
(* and reflex::Matcher): a state machine over one input character sequence *)
(* with one action per public operation.                                   *)
(*                                                                         *)
(* State st:                                                               *)
(*   I    the whole input (bytes), with the edits made by unput            *)
(*   pos  position (0-based) where reading continues                       *)
(*   cur  position where the text of the next match begins (differs from   *)
(*        pos only after more())                                           *)
(*   txt, len, cap   the current match: text I[txt..txt+len), accept index *)
(*   got  character before the next match: byte, BOB, UNK or EOB           *)
(*   lofs line number offset set with lineno(n)                            *)
(*   tab  tab size                                                         *)
(*   edited  unput() was used: byte positions and line numbers are no      *)
(*        longer those of the source                                       *)
(*   alts    all alternatives that accept the text of the current match    *)
(*   stale   the match was invalidated by unput() and there is none since  *)
(***************************************************************************)
EXTENDS Regex, Utf8

BOB == 257
UNK == 256
EOB == -1
REDO  == 2000000000   \* Const::REDO as logged
EMPTY == 2000000001   \* Const::EMPTY as logged

InitState(I, tab) == [ I |-> I, pos |-> 0, cur |-> 0, txt |-> 0, len |-> 0, cap |-> 0,
                       got |-> BOB, lofs |-> 0, tab |-> tab, edited |-> FALSE, stale |-> FALSE, alts |-> {} ]

IsWord(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95

\* the byte before position p once the matcher has moved there
Got(I, p) == IF p = 0 THEN 10 ELSE I[p]
At(I, p)  == IF p < Len(I) THEN I[p + 1] ELSE -1

\* zero-width assertions that hold at position i of a match started at p with got = g
\* (P.half: option W, check only the left of a leading \< and the right of a trailing \>)
Ctx(P, I, i, p, g) ==
  IF P.asserts = <<>> THEN {}
  ELSE LET prev == IF i = p THEN g ELSE I[i]
           next == At(I, i)
       IN { k \in { P.asserts[j] : j \in 1..Len(P.asserts) } :
              \/ k = "bol" /\ prev \in {BOB, 10}
              \/ k = "bob" /\ prev = BOB
              \/ k = "eol" /\ (next \in {-1, 10} \/ (next = 13 /\ At(I, i + 1) = 10))
              \/ k = "eob" /\ next = -1
              \/ k = "bow" /\ ~IsWord(prev) /\ (IsWord(next) \/ (P.half /\ i = p))
              \/ k = "eow" /\ (IsWord(prev) \/ (P.half /\ i > p)) /\ ~IsWord(next)
              \/ k = "wb"  /\ IsWord(prev) # IsWord(next)
              \/ k = "nwb" /\ IsWord(prev) = IsWord(next) }

\* longest match of regex P started at p: <<accept index, end, accepting alternatives>>, index 0: no match
\* P: [nodes, alts, asserts]
RECURSIVE Run(_, _, _, _, _, _, _)
Run(P, S, I, i, p, g, best) ==
  LET C == Ctx(P, I, i, p, g)
      A == AccSet(P.nodes, S, C)
      b == IF A # {} THEN <<Min(A), i, A>> ELSE best
  IN  IF i = Len(I) THEN b
      ELSE LET S2 == StepState(P.nodes, LazyTrim(P.nodes, S, C, P.lazy), C, I[i + 1])
           IN  IF S2 = {} THEN b ELSE Run(P, S2, I, i + 1, p, g, b)

\* trailing context: alternative a is X followed by Y (P.look[a] = <<X, Y>>); the match counts with Y, but
\* only X is consumed.  Where X ends: X matches [p, i) and Y matches [i, e)
RECURSIVE Exact(_, _, _, _, _, _, _)
Exact(P, S, I, i, e, p, g) ==
  LET C == Ctx(P, I, i, p, g) IN
  IF i = e THEN AccSet(P.nodes, S, C) # {}
  ELSE LET S2 == StepState(P.nodes, S, C, I[i + 1]) IN S2 # {} /\ Exact(P, S2, I, i + 1, e, p, g)
Cut(P, a, I, p, e, g) ==
  LET cuts == { i \in p..e : /\ Exact(P, StartState(P.nodes, <<P.look[a][1]>>), I, p, i, p, g)
                             /\ Exact(P, StartState(P.nodes, <<P.look[a][2]>>), I, i, e, p, g) }
  IN CHOOSE i \in cuts : \A j \in cuts : j <= i

\* a match of an alternative that is a negative pattern is never returned
IsNeg(P, A) == \E i \in 1..Len(P.neg) : P.neg[i] \in A

\* what matches at p: <<accept index or 0, end of the matched text, accepting alternatives>>
Longest(P, I, p, g) ==
  LET r == Run(P, StartState(P.nodes, P.alts), I, p, p, g, <<0, p, {}>>)
      \* P.pref: the alternative to report when it is among those that accept, see MatcherTrace
      m == IF P.pref \in r[3] THEN [r EXCEPT ![1] = P.pref] ELSE r
  IN IF m[1] = 0 \/ P.look = <<>> \/ IsNeg(P, m[3]) THEN m
     ELSE IF P.look[m[1]] = <<>> THEN m
     ELSE [m EXCEPT ![2] = Cut(P, m[1], I, p, m[2], g)]

(* ------------------------------- scan -------------------------------- *)
RECURSIVE ScanFrom(_, _, _, _, _, _)
ScanFrom(P, O, st, t, p, g) ==
  LET m == Longest(P, st.I, p, g) IN
  IF m[1] = 0 \/ m[2] = t
  THEN [st EXCEPT !.txt = t, !.len = 0, !.cap = 0, !.pos = t, !.cur = t, !.got = Got(st.I, t)]
  ELSE IF IsNeg(P, m[3]) /\ ~O.A
  THEN ScanFrom(P, O, st, m[2], m[2], Got(st.I, m[2]))
  ELSE [st EXCEPT !.txt = t, !.len = m[2] - t, !.cap = IF IsNeg(P, m[3]) THEN REDO ELSE m[1],
                  !.alts = m[3], !.pos = m[2], !.cur = m[2], !.got = Got(st.I, m[2])]

Scan(P, O, st) == ScanFrom(P, O, st, st.cur, st.pos, st.got)

(* ------------------------------- find -------------------------------- *)
RECURSIVE FindFrom(_, _, _, _, _)
FindFrom(P, O, st, p, g) ==
  LET m == Longest(P, st.I, p, g)
      atend == p >= Len(st.I)
  IN IF m[1] > 0 /\ m[2] > p
     THEN IF IsNeg(P, m[3]) /\ ~O.A
          THEN FindFrom(P, O, st, m[2], Got(st.I, m[2]))
          ELSE [st EXCEPT !.txt = p, !.len = m[2] - p, !.cap = IF IsNeg(P, m[3]) THEN REDO ELSE m[1],
                          !.alts = m[3], !.pos = m[2], !.cur = m[2], !.got = Got(st.I, m[2])]
     ELSE IF atend
     THEN [st EXCEPT !.txt = p, !.len = 0, !.cap = 0, !.pos = p, !.cur = p, !.got = Got(st.I, p)]
     ELSE IF m[1] > 0 /\ O.N
     THEN [st EXCEPT !.txt = p, !.len = 0, !.cap = m[1], !.alts = m[3], !.pos = p + 1, !.cur = p + 1, !.got = Got(st.I, p + 1)]
     ELSE FindFrom(P, O, st, p + 1, Got(st.I, p + 1))

Find(P, O, st) == FindFrom(P, O, st, st.cur, st.got)

(* ------------------------------- split ------------------------------- *)
\* text between t and the next match, searched for from q on; negative matches are part of the text
RECURSIVE SplitFrom(_, _, _, _, _, _)
SplitFrom(P, O, st, t, q, g) ==
  LET m == Longest(P, st.I, q, g)
      n == Len(st.I)
  IN IF m[1] > 0 /\ IsNeg(P, m[3]) /\ ~O.A /\ m[2] > q
     THEN SplitFrom(P, O, st, t, m[2], Got(st.I, m[2]))
     ELSE IF m[1] > 0 /\ (m[2] > t \/ g = BOB)
     THEN IF n = 0
          THEN [st EXCEPT !.txt = t, !.len = 0, !.cap = EMPTY, !.got = EOB]
          ELSE [st EXCEPT !.txt = t, !.len = q - t, !.cap = IF IsNeg(P, m[3]) THEN REDO ELSE m[1], !.alts = m[3], !.pos = m[2], !.cur = m[2], !.got = Got(st.I, m[2])]
     ELSE IF q < n
     THEN SplitFrom(P, O, st, t, q + 1, Got(st.I, q + 1))
     ELSE [st EXCEPT !.txt = t, !.len = n - t, !.cap = IF g # EOB THEN EMPTY ELSE 0,
                     !.pos = n, !.cur = n, !.got = EOB]

Split(P, O, st) == SplitFrom(P, O, st, st.cur, st.cur, st.got)

(* ------------------------------ matches ------------------------------ *)
Matches(P, O, st) ==
  LET m == Longest(P, st.I, 0, BOB)
  IN m[1] > 0 /\ m[2] = Len(st.I) /\ (~IsNeg(P, m[3]) \/ O.A)

(* --------------------------- single characters ------------------------ *)
InputC(st) ==
  IF st.pos < Len(st.I)
  THEN [st EXCEPT !.got = st.I[st.pos + 1], !.pos = st.pos + 1, !.cur = st.pos + 1]
  ELSE [st EXCEPT !.got = EOB, !.cur = st.pos]

WInputLen(st) == IF st.pos < Len(st.I) THEN SeqLen(st.I[st.pos + 1]) ELSE 0
WInputC(st) ==
  IF st.pos < Len(st.I)
  THEN LET p == st.pos + WInputLen(st) IN [st EXCEPT !.got = st.I[p], !.pos = p, !.cur = p]
  ELSE [st EXCEPT !.got = EOB, !.cur = st.pos]

\* put bytes b back in front of the input still to be read
PutBack(st, b) ==
  LET n == Len(b) IN
  IF st.pos >= n
  THEN [st EXCEPT !.I = SubSeq(st.I, 1, st.pos - n) \o b \o SubSeq(st.I, st.pos + 1, Len(st.I)),
                  !.pos = st.pos - n, !.cur = st.pos - n, !.txt = st.pos - n, !.len = 0, !.edited = TRUE, !.stale = TRUE,
                  !.got = IF st.got = EOB THEN UNK ELSE st.got]
  ELSE [st EXCEPT !.I = SubSeq(st.I, 1, st.pos) \o b \o SubSeq(st.I, st.pos + 1, Len(st.I)),
                  !.cur = st.pos, !.txt = st.pos, !.len = 0, !.edited = TRUE, !.stale = TRUE,
                  !.got = IF st.got = EOB THEN UNK ELSE st.got]

(* -------------------------------- skip -------------------------------- *)
\* first position >= p where string s occurs in I, or -1
RECURSIVE IndexOf(_, _, _)
IndexOf(I, p, s) ==
  IF p + Len(s) > Len(I) THEN -1
  ELSE IF SubSeq(I, p + 1, p + Len(s)) = s THEN p
  ELSE IndexOf(I, p + 1, s)

Skip(st, s) ==
  LET k == IndexOf(st.I, st.pos, s)
      e == IF k < 0 THEN Len(st.I) ELSE k + Len(s)
  IN [st EXCEPT !.pos = e, !.cur = e, !.txt = e, !.len = 0, !.got = Got(st.I, e)]
SkipFound(st, s) == IndexOf(st.I, st.pos, s) >= 0

(* ------------------------------ match text ----------------------------- *)
Text(st) == SubSeq(st.I, st.txt + 1, st.txt + st.len)
More(st) == [st EXCEPT !.cur = st.txt]
Less(st, n) == IF n < st.len THEN [st EXCEPT !.len = n, !.pos = st.txt + n, !.cur = st.txt + n, !.got = Got(st.I, st.txt + n)] ELSE st
Rest(st) == [st EXCEPT !.txt = st.pos, !.len = Len(st.I) - st.pos, !.pos = Len(st.I), !.cur = Len(st.I)]

(* ----------------------------- text positions -------------------------- *)
RECURSIVE CountNL(_, _, _)
CountNL(I, a, b) == IF a >= b THEN 0 ELSE (IF I[a + 1] = 10 THEN 1 ELSE 0) + CountNL(I, a + 1, b)
RECURSIVE BolAt(_, _)
BolAt(I, p) == IF p = 0 THEN 0 ELSE IF I[p] = 10 THEN p ELSE BolAt(I, p - 1)
RECURSIVE EolAt(_, _)
EolAt(I, p) == IF p >= Len(I) THEN Len(I) ELSE IF I[p + 1] = 10 THEN p ELSE EolAt(I, p + 1)
\* column reached after the bytes I[a..b) starting from column k; nl: CR and LF take no column
RECURSIVE Col(_, _, _, _, _, _)
Col(I, a, b, k, T, nl) ==
  IF a >= b THEN k
  ELSE LET c == I[a + 1] IN
       Col(I, a + 1, b,
           IF c = 9 THEN k - (k % T) + T
           ELSE IF nl /\ c \in {10, 13} THEN k
           ELSE IF IsCont(c) THEN k ELSE k + 1, T, nl)
RECURSIVE WLen(_, _, _)
WLen(I, a, b) == IF a >= b THEN 0 ELSE (IF IsCont(I[a + 1]) THEN 0 ELSE 1) + WLen(I, a + 1, b)

Lineno(st)  == 1 + st.lofs + CountNL(st.I, 0, st.txt)
Columno(st) == Col(st.I, BolAt(st.I, st.txt), st.txt, 0, st.tab, FALSE)
Lines(st)   == 1 + CountNL(st.I, st.txt, st.txt + st.len)
Columns(st) == Col(st.I, st.txt, st.txt + st.len, Columno(st), st.tab, TRUE) - Columno(st)
\* the column of the last character of the match on its last line
ColumnoEnd(st) ==
  IF st.len = 0 THEN Columno(st)
  ELSE LET e == st.txt + st.len
           b == BolAt(st.I, e)
           k == Col(st.I, b, e, 0, st.tab, FALSE)
       IN IF k > 0 THEN k - 1 ELSE 0
Border(st) == st.txt - BolAt(st.I, st.txt)
PosInfo(st) == << Lineno(st), Columno(st), Lines(st), Lineno(st) + Lines(st) - 1, Columns(st), ColumnoEnd(st),
                  Border(st), WLen(st.I, st.txt, st.txt + st.len) >>

\* the line(s) of input holding the match
LineText(st) == SubSeq(st.I, BolAt(st.I, st.txt) + 1, EolAt(st.I, st.txt + st.len))
Span(st) == LET b == BolAt(st.I, st.txt)
                e == EolAt(st.I, st.txt + st.len)
            IN [st EXCEPT !.txt = b, !.len = e - b, !.pos = e, !.cur = e, !.got = Got(st.I, e)]
SetLineno(st, n) == [st EXCEPT !.lofs = n - 1 - CountNL(st.I, 0, st.txt)]
=============================================================================
