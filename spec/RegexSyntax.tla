---------------------------- MODULE RegexSyntax ----------------------------
(***************************************************************************)
(* Which regexes are well formed, and what is wrong with the others.  A    *)
(* regex is read from left to right by a pushdown machine; its verdict is  *)
(* the set of acceptable answers: "ok", an error of regex_error, or, where *)
(* the documentation leaves it open, several of them.                      *)
(* Bytes are integers; lists are evaluated to the set they denote, since a *)
(* list that denotes no character is an error.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LP == 40   RP == 41   STAR == 42  PLUS == 43   COMMA == 44  MINUS == 45
COLON == 58  QM == 63  LB == 91  BS == 92  RB == 93  CARET == 94  LC == 123  BAR == 124  RC == 125
HASH == 35  DOLLAR == 36  AMP == 38

Any == {"ok", "paren", "brace", "bracket", "quote", "empty", "eclass", "class", "range", "escape", "anchor", "repeat",
        "quant", "mod", "syntax", "other"}

Digit(c) == c \in 48..57
Alpha(c) == c \in 65..90 \/ c \in 97..122
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

ClassOf(c) == CASE c = 100 -> 48..57                                      \* d
                [] c = 119 -> (48..57) \cup (65..90) \cup (97..122) \cup {95}  \* w
                [] c = 115 -> (9..13) \cup {32}                           \* s
                [] c = 68  -> (0..255) \ (48..57)                         \* D
                [] c = 87  -> (0..255) \ ((48..57) \cup (65..90) \cup (97..122) \cup {95})
                [] OTHER   -> {}
CharOf(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 102 -> 12 [] c = 114 -> 13 [] OTHER -> -1

PosixNames == [alpha |-> <<97, 108, 112, 104, 97>>, digit |-> <<100, 105, 103, 105, 116>>]
PosixSet(n) == IF n = "alpha" THEN (65..90) \cup (97..122) ELSE 48..57

\* least j >= i with s[j] = a and s[j+1] = b, 0 if there is none
Find2(s, i, a, b) ==
  LET J == { j \in i..(Len(s) - 1) : s[j] = a /\ s[j + 1] = b }
  IN  IF J = {} THEN 0 ELSE CHOOSE j \in J : \A x \in J : j <= x

\* \p{Name} at i: the class (of the two names used here), the error, or unspecified
PropName(s, i) == IF At(s, i + 2) # LC THEN <<>> ELSE
  LET J == { j \in (i + 3)..Len(s) : s[j] = RC } IN
  IF J = {} THEN <<>> ELSE SubSeq(s, i + 3, (CHOOSE j \in J : \A x \in J : j <= x) - 1)
PropAlpha == <<65, 108, 112, 104, 97>>
PropFoo == <<70, 111, 111>>

L(e, i, set) == [e |-> e, i |-> i, set |-> set]

(* The list that starts after the bracket at i - 1.  pc: the previous      *)
(* character, -2 if none can start a range, -1 if it was a class; lo: the  *)
(* first character of an unfinished range, -1 if there is none.            *)
RECURSIVE Elems(_, _, _, _, _, _, _)
List(s, i) == IF At(s, i) = CARET THEN Elems(s, i + 1, TRUE, 0, -2, -1, {})
              ELSE Elems(s, i, FALSE, 0, -2, -1, {})

SetOp(c) == c \in {BAR, AMP, MINUS}

Elems(s, i, neg, n, pc, lo, set) ==
  LET c == At(s, i)
      d == At(s, i + 1)
  IN
  IF c = -1 THEN L({"bracket"}, i, {})
  ELSE IF c = RB /\ n > 0 THEN
    LET all == IF lo >= 0 THEN set \cup {MINUS} ELSE set
        res == IF neg THEN (0..255) \ all ELSE all
    IN  IF res = {} THEN L({"eclass"}, i, {}) ELSE L({"ok"}, i + 1, res)
  ELSE IF c = BS THEN
    IF d = -1 THEN L({"bracket", "escape"}, i, {})
    ELSE IF ClassOf(d) # {} THEN
      IF lo >= 0 THEN L({"range"}, i, {})
      ELSE Elems(s, i + 2, neg, n + 1, -1, -1, set \cup ClassOf(d))
    ELSE IF CharOf(d) >= 0 \/ ~(Alpha(d) \/ Digit(d)) THEN
      LET x == IF CharOf(d) >= 0 THEN CharOf(d) ELSE d IN
      IF lo >= 0 THEN IF lo > x THEN L({"range"}, i, {}) ELSE Elems(s, i + 2, neg, n + 1, x, -1, set \cup lo..x)
      ELSE Elems(s, i + 2, neg, n + 1, x, -1, set \cup {x})
    ELSE IF d = 112 /\ PropName(s, i) = PropAlpha THEN
      IF lo >= 0 THEN L({"range"}, i, {})
      ELSE Elems(s, i + 4 + Len(PropAlpha), neg, n + 1, -1, -1, set \cup PosixSet("alpha"))
    ELSE IF d = 112 /\ PropName(s, i) = PropFoo THEN L({"class"}, i, {})
    ELSE L(Any, i, {})
  ELSE IF c = LB /\ d = COLON THEN
    LET j == Find2(s, i + 2, COLON, RB) IN
    IF j = 0 THEN L(Any, i, {})
    ELSE LET ng == At(s, i + 2) = CARET
             nm == SubSeq(s, i + 2 + (IF ng THEN 1 ELSE 0), j - 1)
             M  == { x \in DOMAIN PosixNames : PosixNames[x] = nm }
         IN  IF lo >= 0 THEN L({"range"}, i, {})
             ELSE IF nm = <<102, 111, 111>> THEN L({"class"}, i, {})
             ELSE IF M = {} THEN L(Any, i, {})
             ELSE LET x == PosixSet(CHOOSE y \in M : TRUE)
                  IN  Elems(s, j + 2, neg, n + 1, -1, -1, set \cup (IF ng THEN (0..255) \ x ELSE x))
  ELSE IF SetOp(c) /\ d = c /\ At(s, i + 2) = LB THEN
    IF n = 0 THEN L(Any, i, {})
    ELSE IF lo >= 0 THEN L({"range"}, i, {})
    ELSE LET in == List(s, i + 3) IN
         IF in.e # {"ok"} THEN L(IF in.e = {"bracket"} THEN {"bracket", "class"} ELSE in.e, i, {})
         ELSE Elems(s, in.i, neg, n + 1, -1, -1,
                    CASE c = BAR -> set \cup in.set [] c = AMP -> set \cap in.set [] c = MINUS -> set \ in.set)
  ELSE IF c = MINUS /\ lo < 0 /\ pc # -2 /\ d # RB THEN
    IF pc = -1 THEN L({"range"}, i, {})
    ELSE Elems(s, i + 1, neg, n + 1, pc, pc, set)
  ELSE IF lo >= 0 THEN
    IF lo > c THEN L({"range"}, i, {}) ELSE Elems(s, i + 1, neg, n + 1, -2, -1, set \cup lo..c)
  ELSE Elems(s, i + 1, neg, n + 1, c, -1, set \cup {c})

\* end of the digits that start at i
RECURSIVE Num(_, _, _)
Num(s, i, v) == IF Digit(At(s, i)) THEN Num(s, i + 1, 10 * v + s[i] - 48) ELSE [i |-> i, v |-> v]

\* {n} {n,} {n,m} at i: the index after it, or the error
Repeat(s, i) ==
  IF ~Digit(At(s, i + 1)) THEN L({"repeat", "brace"}, i, {})
  ELSE LET a == Num(s, i + 1, 0) IN
       IF At(s, a.i) = RC THEN L({"ok"}, a.i + 1, {})
       ELSE IF At(s, a.i) # COMMA THEN L({"repeat", "brace"}, i, {})
       ELSE IF At(s, a.i + 1) = RC THEN L({"ok"}, a.i + 2, {})
       ELSE IF ~Digit(At(s, a.i + 1)) THEN L({"repeat", "brace"}, i, {})
       ELSE LET b == Num(s, a.i + 1, 0) IN
            IF b.v < a.v THEN L({"repeat", "brace"}, i, {})
            ELSE IF At(s, b.i) = RC THEN L({"ok"}, b.i + 1, {})
            ELSE L({"repeat", "brace"}, i, {})

ModOk == {105, 109, 115, 120}    \* i m s x
RECURSIVE Mods(_, _)
Mods(s, i) == IF Alpha(At(s, i)) \/ At(s, i) = MINUS THEN Mods(s, i + 1) ELSE i

(* lev: open groups; need: nothing yet in this alternative; prev: what can *)
(* be quantified: "atom", "quant", "none" (start), "anchor", "gap" (after  *)
(* something invisible)                                                    *)
RECURSIVE Scan(_, _, _, _, _)
Scan(s, i, lev, need, prev) ==
  LET c == At(s, i)
      d == At(s, i + 1)
      Atom(j) == Scan(s, j, lev, FALSE, "atom")
      Anchor(j) == Scan(s, j, lev, need, "anchor")
      Quant(j) == IF prev \in {"none", "anchor"} THEN {"empty", "syntax"}
                  ELSE IF prev = "gap" THEN Any
                  ELSE Scan(s, j, lev, FALSE, "quant")
  IN
  IF c = -1 THEN
    IF lev > 0 THEN {"paren"} ELSE IF need THEN {"ok", "empty"} ELSE {"ok"}
  ELSE IF c = BS THEN
    IF d = -1 THEN {"escape"}
    ELSE IF d = 81 THEN     \* \Q
      LET j == Find2(s, i + 2, BS, 69) IN
      IF j = 0 THEN {"quote"} ELSE IF j = i + 2 THEN Any ELSE Atom(j + 2)
    ELSE IF ~Alpha(d) /\ ~Digit(d) /\ d \notin {60, 62} THEN Atom(i + 2)
    ELSE IF ClassOf(d) # {} \/ CharOf(d) >= 0 THEN Atom(i + 2)
    ELSE IF d \in {98, 66, 60, 62, 65} THEN Anchor(i + 2)    \* b B < > A
    ELSE IF d = 112 /\ PropName(s, i) = PropAlpha THEN Atom(i + 4 + Len(PropAlpha))
    ELSE IF d = 112 /\ PropName(s, i) = PropFoo THEN {"class", "escape"}
    ELSE Any
  ELSE IF c = LP THEN
    IF d # QM THEN Scan(s, i + 1, lev + 1, TRUE, "none")
    ELSE LET e == At(s, i + 2) IN
      IF e = HASH THEN
        LET J == { j \in (i + 3)..Len(s) : s[j] = RP } IN
        IF J = {} THEN {"paren"}
        ELSE Scan(s, (CHOOSE j \in J : \A x \in J : j <= x) + 1, lev, need, IF prev = "none" THEN "none" ELSE "gap")
      ELSE IF e = -1 THEN {"paren", "syntax"}
      ELSE IF e = COLON THEN Scan(s, i + 3, lev + 1, TRUE, "none")
      ELSE IF ~Alpha(e) THEN (IF e \in {61, CARET, RP, MINUS} THEN Any ELSE {"syntax", "mod"})
      ELSE LET j == Mods(s, i + 2)
               M == { s[x] : x \in (i + 2)..(j - 1) }
           IN  IF M \ (ModOk \cup {MINUS}) # {} THEN {"mod"}
               ELSE IF At(s, j) = COLON THEN Scan(s, j + 1, lev + 1, TRUE, "none")
               ELSE IF 120 \in M THEN Any          \* free space: not specified here
               ELSE IF At(s, j) = RP THEN Scan(s, j + 1, lev, need, IF prev = "none" THEN "none" ELSE "gap")
               ELSE IF At(s, j) = -1 THEN {"paren"}
               ELSE Any
  ELSE IF c = RP THEN
    IF lev = 0 THEN {"paren"}
    ELSE IF need THEN (IF prev \in {"anchor", "gap"} THEN Any ELSE {"empty"})
    ELSE Scan(s, i + 1, lev - 1, FALSE, "atom")
  ELSE IF c = BAR THEN
    IF need THEN (IF prev \in {"anchor", "gap"} THEN Any ELSE {"empty"})
    ELSE Scan(s, i + 1, lev, TRUE, "none")
  ELSE IF c = CARET THEN Anchor(i + 1)
  ELSE IF c = DOLLAR THEN Scan(s, i + 1, lev, FALSE, "anchor")
  ELSE IF c = LB THEN
    LET r == List(s, i + 1) IN
    IF r.e = {"ok"} THEN Atom(r.i)
    \* what is wrong in a list that is not closed either is reported first or last
    ELSE IF \A j \in r.i..Len(s) : s[j] # RB THEN r.e \cup {"bracket", "class", "range", "eclass"}
    ELSE IF "bracket" \in r.e THEN r.e \cup {"eclass", "range", "class"} ELSE r.e
  ELSE IF c \in {STAR, QM} THEN Quant(i + 1)
  ELSE IF c = PLUS THEN IF prev = "quant" THEN {"quant"} ELSE Quant(i + 1)
  ELSE IF c = LC THEN
    IF prev \in {"none", "anchor"} THEN {"empty", "syntax"}
    ELSE IF prev = "gap" THEN Any
    ELSE LET r == Repeat(s, i) IN IF r.e = {"ok"} THEN Quant(r.i) ELSE r.e
  ELSE IF c = RC THEN {"brace"}
  ELSE Atom(i + 1)

Verdicts(s) == Scan(s, 1, 0, TRUE, "none")
=============================================================================
