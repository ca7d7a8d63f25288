-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* Specification of a scanner generated by reflex from a lexer             *)
(* specification X: rules with start conditions and actions, executed over *)
(* a stack of inputs.                                                      *)
(*                                                                         *)
(* X.n       number of start conditions, 0 is INITIAL                      *)
(* X.excl    the exclusive ones                                            *)
(* X.rules   sequence of [pre, eof, root, look, neg, bar, act]             *)
(*     pre   scopes from outer to inner, each a sequence of <<op, s>>,     *)
(*           op "+": add, "-": remove; s = -1: all start conditions        *)
(*     bar   the action is "|": that of the next rule                      *)
(*     act   sequence of operations [o, n, x]                              *)
(* X.inits   initial code blocks [pre, id]                                 *)
(* X.find    option find: unmatched input is skipped                       *)
(* X.nodef   option nodefault                                              *)
(* X.quiet   options nodefault and debug: unmatched input is not echoed    *)
(*                                                                         *)
(* State lx:                                                               *)
(*   ms    stack of matcher states (Matcher.tla), the last one scans       *)
(*   sc    start condition       stk  stack of start conditions            *)
(*   out   text echoed since the last event                                *)
(*   fuel  bounds the operations that can be repeated forever              *)
(*   todo  operations of the action that remain to be executed             *)
(*   seen  the current matcher has matched since lex() was called          *)
(*   loc   line and column of the first and last character of that match   *)
(*   pc    "call": lex() is not active, "scan", "ops", "stop"              *)
(***************************************************************************)
EXTENDS Matcher

RECURSIVE Fold(_, _, _)
Fold(n, S, lev) ==
  IF lev = <<>> THEN S
  ELSE LET a == Head(lev)[1]
           T == IF Head(lev)[2] = -1 THEN 0..(n - 1) ELSE {Head(lev)[2]}
       IN Fold(n, IF a = "+" THEN S \cup T ELSE S \ T, Tail(lev))
RECURSIVE FoldAll(_, _, _)
FoldAll(n, S, pre) == IF pre = <<>> THEN S ELSE FoldAll(n, Fold(n, S, Head(pre)), Tail(pre))

Inclusive(X) == { s \in 0..(X.n - 1) : \A i \in 1..Len(X.excl) : X.excl[i] # s }
\* the start conditions in which a rule or an initial code block is active
ActiveIn(X, pre, eof) ==
  IF pre # <<>> THEN FoldAll(X.n, {}, pre) ELSE IF eof THEN 0..(X.n - 1) ELSE Inclusive(X)

\* the rules of start condition s, in order
RulesOf(X, s) == SelectSeq([i \in 1..Len(X.rules) |-> i], LAMBDA i : s \in ActiveIn(X, X.rules[i].pre, X.rules[i].eof))
Patterns(X, s) == SelectSeq(RulesOf(X, s), LAMBDA i : ~X.rules[i].eof)

Pat(X, s, pref) ==
  LET R == Patterns(X, s)
      N == SelectSeq([i \in 1..Len(R) |-> i], LAMBDA i : X.rules[R[i]].neg)
  IN [ nodes |-> X.nodes, alts |-> [i \in 1..Len(R) |-> X.rules[R[i]].root], asserts |-> X.asserts, neg |-> N,
       look |-> IF \E i \in 1..Len(R) : X.rules[R[i]].look # <<>> THEN [i \in 1..Len(R) |-> X.rules[R[i]].look] ELSE <<>>,
       pref |-> pref, half |-> FALSE, lazy |-> SelectSeq([i \in 1..Len(R) |-> i], LAMBDA i : X.rules[R[i]].lazy) ]

\* the rule whose action is executed for the a-th pattern of start condition s
ActionOf(X, s, a) ==
  LET L == RulesOf(X, s)
      p == CHOOSE p \in 1..Len(L) : L[p] = Patterns(X, s)[a]
      q == CHOOSE q \in p..Len(L) : ~X.rules[L[q]].bar /\ \A k \in p..(q - 1) : X.rules[L[k]].bar
  IN L[q]
EofRule(X, s) ==
  LET E == SelectSeq(RulesOf(X, s), LAMBDA i : X.rules[i].eof) IN IF E = <<>> THEN 0 ELSE E[1]

Fresh0(m) == [m EXCEPT !.stale = FALSE]
Cur(lx) == lx.ms[Len(lx.ms)]
SetCur(lx, m) == [lx EXCEPT !.ms = [lx.ms EXCEPT ![Len(lx.ms)] = m]]

InitLexer(I, tab, fuel) == [ ms |-> <<InitState(I, tab)>>, sc |-> 0, stk |-> <<>>, out |-> <<>>, fuel |-> fuel, todo |-> <<>>, pc |-> "call", seen |-> FALSE, loc |-> <<>> ]
\* in(input): scanning restarts with new input, the start condition and its stack remain
Restart(lx, I, tab) == [lx EXCEPT !.ms = [lx.ms EXCEPT ![Len(lx.ms)] = InitState(I, tab)], !.pc = "call"]

Loc(m) == << Lineno(m), Columno(m), Lineno(m) + Lines(m) - 1, ColumnoEnd(m) >>

Ev(t, id, x, a) == [t |-> t, id |-> id, x |-> x, a |-> a]
NONE == Ev("", 0, <<>>, 0)
Top(lx) == IF lx.stk = <<>> THEN 0 ELSE lx.stk[Len(lx.stk)]
PopState(lx) == IF lx.stk = <<>> THEN lx ELSE [lx EXCEPT !.sc = Top(lx), !.stk = SubSeq(lx.stk, 1, Len(lx.stk) - 1)]

\* execute operation p: <<state, event or NONE>>
Exec(X, J, lx, p) ==
  LET m == Cur(lx)
      burn == [lx EXCEPT !.fuel = lx.fuel - 1]
  IN
  CASE p.o = "begin" -> << [lx EXCEPT !.sc = p.n], NONE >>
    [] p.o = "push"  -> << [lx EXCEPT !.stk = Append(lx.stk, lx.sc), !.sc = p.n], NONE >>
    [] p.o = "pop"   -> << PopState(lx), NONE >>
    [] p.o = "more"  -> << SetCur(lx, More(m)), NONE >>
    [] p.o = "less"  -> IF lx.fuel > 0 THEN << SetCur(burn, Less(m, p.n)), NONE >> ELSE << lx, NONE >>
    [] p.o = "unput" -> IF lx.fuel > 0 THEN << SetCur(burn, PutBack(m, <<p.n>>)), NONE >> ELSE << lx, NONE >>
    [] p.o = "input" -> LET t == InputC(m) IN << SetCur(lx, t), Ev("i", t.got, <<>>, 0) >>
    [] p.o = "peek"  -> << lx, Ev("i", At(m.I, m.pos), <<>>, 0) >>
    [] p.o = "skip"  -> << SetCur(lx, Fresh0(Skip(m, <<p.n>>))), Ev("i", IF SkipFound(m, <<p.n>>) THEN 1 ELSE 0, <<>>, 0) >>
    [] p.o = "echo"  -> << [lx EXCEPT !.out = lx.out \o Text(m)], NONE >>
    [] p.o = "put"   -> << [lx EXCEPT !.out = Append(lx.out, p.n)], NONE >>
    [] p.o = "lineno" -> << SetCur(lx, SetLineno(m, p.n)), NONE >>
    [] p.o = "text"  -> << lx, Ev("t", 0, Text(m), 0) >>
    [] p.o = "open"  -> IF lx.fuel > 0 /\ Len(lx.ms) < 4
                        THEN << [burn EXCEPT !.ms = Append(lx.ms, InitState(J[p.n], X.tab)), !.seen = FALSE], NONE >>
                        ELSE << lx, NONE >>
    [] p.o = "close" -> IF Len(lx.ms) > 1 THEN << [lx EXCEPT !.ms = SubSeq(lx.ms, 1, Len(lx.ms) - 1), !.seen = FALSE], NONE >> ELSE << lx, NONE >>
    \* at the end of input: return when there is no input to go back to
    [] p.o = "quit"  -> IF Len(lx.ms) > 1 THEN << lx, NONE >> ELSE << [lx EXCEPT !.pc = "call", !.todo = <<>>], Ev("r", 0, <<>>, 0) >>
    [] p.o = "again" -> IF lx.fuel > 0 THEN << [lx EXCEPT !.fuel = lx.fuel - 5, !.todo = <<>>], NONE >> ELSE << lx, NONE >>
    [] p.o = "return" -> << [lx EXCEPT !.pc = "call", !.todo = <<>>], Ev("r", p.n, <<>>, 0) >>
    [] p.o = "init"  -> << lx, Ev("I", p.n, <<>>, 0) >>

AtEnd(m) == m.pos >= Len(m.I)

\* run to the next event: <<state, event>>; pref: see Matcher.Longest
RECURSIVE Advance(_, _, _, _)
Advance(X, J, lx, pref) ==
  IF lx.pc = "call"
  THEN LET ids == SelectSeq(X.inits, LAMBDA i : lx.sc \in ActiveIn(X, i.pre, FALSE))
       IN Advance(X, J, [lx EXCEPT !.seen = FALSE, !.pc = "ops", !.todo = [i \in 1..Len(ids) |-> [o |-> "init", n |-> ids[i].id, x |-> <<>>]]], pref)
  ELSE IF lx.pc = "ops"
  THEN IF lx.todo = <<>> THEN Advance(X, J, [lx EXCEPT !.pc = "scan"], pref)
       ELSE LET r == Exec(X, J, [lx EXCEPT !.todo = Tail(lx.todo)], Head(lx.todo))
            IN IF r[2] = NONE THEN Advance(X, J, r[1], pref) ELSE r
  ELSE LET P == Pat(X, lx.sc, pref)
           O == [A |-> FALSE, N |-> FALSE]
           m == Fresh0(IF X.find THEN Find(P, O, Cur(lx)) ELSE Scan(P, O, Cur(lx)))
           n == [SetCur(lx, m) EXCEPT !.seen = m.cap # 0, !.loc = IF m.cap # 0 /\ ~m.edited THEN Loc(m) ELSE <<>>]
       IN IF m.cap # 0
          THEN LET r == ActionOf(X, lx.sc, m.cap)
               IN << [n EXCEPT !.pc = "ops", !.todo = X.rules[r].act], Ev(IF X.rules[r].eof THEN "E" ELSE "R", r, Text(m), m.cap) >>
          \* more() and then no match: what happens with the text is not specified
          ELSE IF Cur(lx).cur # Cur(lx).pos THEN << lx, Ev("U", 0, <<>>, 0) >>
          ELSE IF AtEnd(m) \/ X.find
          THEN LET r == EofRule(X, lx.sc)
               IN IF r = 0 THEN << [n EXCEPT !.pc = "call"], Ev("r", 0, <<>>, 0) >>
                  ELSE << [n EXCEPT !.pc = "ops", !.todo = X.rules[r].act], Ev("E", r, <<>>, 0) >>
          ELSE IF X.nodef THEN << [n EXCEPT !.pc = "stop"], Ev("X", 0, <<>>, 0) >>
          ELSE LET t == InputC(m) IN Advance(X, J, [SetCur(n, t) EXCEPT !.out = IF X.quiet THEN n.out ELSE Append(n.out, t.got)], pref)
=============================================================================
