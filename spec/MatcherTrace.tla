---------------------------- MODULE MatcherTrace ----------------------------
(***************************************************************************)
(* Trace validation: recorded sessions of the real matcher must be         *)
(* behaviours of Matcher.tla.  One event per public call, with its result  *)
(* and the projected state; a session is accepted when every event is      *)
(* explained by the action of that name.                                   *)
(***************************************************************************)
EXTENDS Matcher, Json, IOUtils, TLC

Sess == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, l, st
vars == <<k, l, st>>

Init == /\ k \in 1..Len(Sess)
        /\ l = 1
        /\ st = InitState(Sess[k].I, Sess[k].O.T)

B(b) == IF b THEN 1 ELSE 0

\* expected outcome of event e in state s: [st, r (-9: not compared), x (<<-9>>: not compared)]
Out(s, r, x) == [st |-> s, r |-> r, x |-> x]
ANYX == <<-9>>
NoX == <<>>

UpToNul(s) == LET z == { i \in 1..Len(s) : s[i] = 0 } IN IF z = {} THEN s ELSE SubSeq(s, 1, Min(z) - 1)

AccPre(s, a) ==
  CASE a \in {1, 5, 11} -> ValidFrom(Text(s), 1)
    [] a = 2 -> s.len > 0
    [] a = 3 -> s.len > 0 /\ ValidFrom(Text(s), 1)
    [] a = 6 -> ~s.edited
    [] a \in {8, 9} -> ~s.edited /\ s.pos = s.txt + s.len
    [] OTHER -> TRUE

\* the domain of each operation: outside of it the interface promises nothing and the session ends
Pre(s, e) ==
  CASE e.o \in {"F", "P", "r"} -> s.cur = s.pos
    [] e.o \in {"I"} -> s.pos >= Len(s.I) \/ ValidAt(s.I, s.pos + 1)
    [] e.o \in {"L", "W", "N"} -> ~s.edited /\ s.pos = s.txt + s.len
                                /\ (e.o = "W" => ValidFrom(LineText(s), 1))
    [] e.o \in {"l", "m", "t", "q", "z", "G", "g"} -> ~s.stale
    [] e.o = "a" -> ~s.stale /\ AccPre(s, e.a)
    [] e.o = "=" -> ~s.stale
    [] e.o \in {"d", "D", "n"} -> ~s.edited
    [] OTHER -> TRUE

Fresh(t) == [t EXCEPT !.stale = FALSE]
Prefix(x, s) == Len(x) <= Len(s) /\ x = SubSeq(s, 1, Len(x))

\* the match as the accessors give it: its bytes, its characters, its number, its line
RECURSIVE Decode(_, _)
Decode(t, i) == IF i > Len(t) THEN <<>> ELSE <<Dec1(t, i)>> \o Decode(t, i + SeqLen(t[i]))
Acc(s, a) ==
  LET t == Text(s)
      line == SubSeq(s.I, BolAt(s.I, s.txt) + 1, EolAt(s.I, s.txt + s.len) + (IF a = 9 /\ EolAt(s.I, s.txt + s.len) < Len(s.I) THEN 1 ELSE 0))
  IN CASE a \in {0, 12} -> Out(s, 0, t)
       [] a = 1 -> Out(s, 0, Decode(t, 1))
       [] a = 2 -> Out(s, t[1], NoX)
       [] a = 3 -> Out(s, Dec1(t, 1), NoX)
       [] a \in {4, 7, 10} -> Out(s, s.cap, t)
       [] a \in {5, 11} -> Out(s, s.cap, Decode(t, 1))
       [] a = 6 -> Out(s, s.txt + s.len, NoX)
       [] a \in {8, 9} -> Out(s, 0, line)
Expect(P, O, s, e) ==
  CASE e.o = "S" -> LET t == Fresh(Scan(P, O, s)) IN Out(t, t.cap, Text(t))
    [] e.o = "F" -> LET t == Fresh(Find(P, O, s)) IN Out(t, t.cap, Text(t))
    [] e.o = "P" -> LET t == Fresh(Split(P, O, s)) IN Out(t, t.cap, Text(t))
    [] e.o = "M" -> Out(s, B(Matches(P, O, s)), ANYX)
    [] e.o = "i" -> LET t == InputC(s) IN Out(t, t.got, NoX)
    [] e.o = "I" -> Out(WInputC(s), IF s.pos < Len(s.I) THEN Dec1(s.I, s.pos + 1) ELSE -1, NoX)
    [] e.o = "k" -> Out(s, At(s.I, s.pos), NoX)
    [] e.o = "u" -> Out(PutBack(s, <<e.a>>), 0, NoX)
    [] e.o = "U" -> Out(PutBack(s, Enc(e.a)), 0, NoX)
    [] e.o = "c" -> Out(Fresh(Skip(s, <<e.a>>)), B(SkipFound(s, <<e.a>>)), NoX)
    [] e.o = "w" -> Out(Fresh(Skip(s, Enc(e.a))), B(SkipFound(s, Enc(e.a))), NoX)
    [] e.o = "C" -> Out(Fresh(Skip(s, e.x)), B(SkipFound(s, e.x)), ANYX)
    [] e.o = "m" -> Out(More(s), 0, NoX)
    [] e.o = "l" -> LET t == Less(s, e.a) IN Out(t, 0, Text(t))
    [] e.o = "t" -> Out(s, 0, UpToNul(Text(s)))
    [] e.o = "r" -> LET t == Fresh(Rest(s)) IN Out(t, 0, Text(t))
    [] e.o = "L" -> Out(s, 0, LineText(s))
    [] e.o = "W" -> Out(s, WLen(LineText(s), 0, Len(LineText(s))), NoX)
    [] e.o = "N" -> LET t == Span(s) IN Out(t, 0, Text(t))
    [] e.o = "e" -> Out(s, B(s.pos >= Len(s.I)), NoX)
    [] e.o = "h" -> Out(s, IF e.r = 1 THEN B(s.pos >= Len(s.I)) ELSE 0, NoX)
    [] e.o = "b" -> Out(s, B(s.got \in {BOB, 10}), NoX)
    [] e.o = "B" -> Out(s, B(s.got = BOB), NoX)
    [] e.o = "T" -> Out([s EXCEPT !.tab = e.a], 0, NoX)
    [] e.o = "n" -> Out(SetLineno(s, e.a), 0, NoX)
    [] e.o = "y" -> Out([s EXCEPT !.got = IF e.a = 1 THEN 10 ELSE IF s.got = 10 THEN UNK ELSE s.got], 0, NoX)
    [] e.o = "j" -> Out([s EXCEPT !.got = IF e.a = 1 THEN BOB ELSE IF s.got = BOB THEN UNK ELSE s.got], 0, NoX)
    [] e.o = "a" -> Acc(s, e.a)
    [] e.o = "=" -> LET t == Text(s)
                        c == UpToNul(e.x)
                        is == s.cap = e.a
                    IN Out(s, (IF e.x = t THEN 1 ELSE 2) + (IF c = t THEN 4 ELSE 8) + (IF is THEN 16 ELSE 32) + (IF is THEN 64 ELSE 128), ANYX)
    [] e.o = "q" -> Out(s, 0, Text(s))
    \* captures of the last scan or find: the alternative that matched and its text
    [] e.o = "G" -> Out(s, s.cap, NoX)
    [] e.o = "g" -> IF e.a \in {0, s.cap} THEN Out(s, 0, Text(s)) ELSE Out(s, -1, NoX)
    [] e.o = "z" -> Out(s, WLen(s.I, s.txt, s.txt + s.len), NoX)
    [] e.o = "v" -> Out(s, 0, NoX)
    \* everything shifted out of the buffer plus the buffered context before the matching line is exactly
    \* the input up to that line; r: number of bytes shifted out so far (bounded by the line's start)
    [] e.o = "d" -> Out(s, IF e.r >= 0 /\ e.r <= BolAt(s.I, s.txt) THEN e.r ELSE -7, SubSeq(s.I, 1, BolAt(s.I, s.txt)))
    \* after(): all of the input has been handed out (shifted out or still buffered) once its end was hit
    [] e.o = "D" -> Out(s, IF e.r >= 0 THEN e.r ELSE -7,
                        IF Prefix(e.x, s.I) /\ (e.r > 0 \/ (s.cap = 0 /\ s.pos = Len(s.I)) => e.x = s.I) THEN e.x ELSE s.I)

Good(P, o, e) ==
  /\ e.r = o.r
  /\ o.x = ANYX \/ e.x = o.x
  /\ (e.s = 1 /\ e.o # "M") => ((o.st.edited \/ e.f = o.st.txt) /\ e.n = o.st.len)
  /\ (e.p = 1) => (o.st.edited \/ e.l = PosInfo(o.st))

E0 == Sess[k].ev[l]
\* P.tie: which of several alternatives matching the same text is reported is not specified
P0 == [Sess[k].P EXCEPT !.pref = IF Sess[k].P.tie /\ E0.o \in {"S", "F", "P"} THEN E0.r ELSE 0]
O0 == Expect(P0, Sess[k].O, st, E0)

Step == /\ l >= 1 /\ l <= Len(Sess[k].ev)
        /\ IF ~Pre(st, E0) THEN l' = 0 /\ st' = st ELSE
           LET o == O0 IN
           IF Good(P0, o, E0)
           THEN st' = o.st /\ l' = l + 1
           ELSE /\ PrintT(<<"REJECT", k, l, [r |-> o.r, x |-> o.x, f |-> o.st.txt, n |-> o.st.len,
                                            l |-> IF E0.p = 1 THEN PosInfo(o.st) ELSE <<>>]>>)
                /\ l' = 0 /\ st' = st
        /\ k' = k
Next == Step

\* the specification's own invariants, evaluated on every state of every trace
TypeOK == /\ st.txt >= 0 /\ st.txt + st.len <= Len(st.I)
          /\ st.pos <= Len(st.I) /\ st.cur <= st.pos
Accepted == l # 0
=============================================================================
