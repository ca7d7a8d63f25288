----------------------------- MODULE LexerTrace ------------------------------
(***************************************************************************)
(* Trace validation: the recorded runs of generated scanners must be       *)
(* behaviours of Lexer.tla.  One event per executed action, initial code   *)
(* block, return of lex() and operation with a result.                     *)
(***************************************************************************)
EXTENDS Lexer, Json, IOUtils, TLC

Sess == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, l, lx
vars == <<k, l, lx>>

Init == /\ k \in 1..Len(Sess)
        /\ l = 1
        /\ lx = InitLexer(Sess[k].J[Sess[k].main], Sess[k].X.tab, Sess[k].fuel)

E0 == Sess[k].ev[l]
X0 == Sess[k].X

Positions(m) == << Lineno(m), Columno(m), Lines(m), Columns(m) >>

\* what the caller of the scanner function receives with a token: its location, text and line
\* (the match is not there anymore after unput())
Received(e, n) ==
  LET c == e.cl
      m == Cur(n)
  IN (e.id # 0 /\ n.seen /\ ~m.stale) =>
       /\ c.has = 1 => c.txt = Text(m)
       /\ (c.line >= 0 /\ ~m.edited) => c.line = Lineno(m)
       /\ (c.loc # <<>> /\ n.loc # <<>> /\ ~m.edited) => c.loc = IF X0.late THEN Loc(m) ELSE n.loc

Good(e, o) ==
  LET n == o[1]
      v == o[2]
  IN /\ e.t = v.t /\ e.id = v.id /\ e.x = v.x
     /\ e.out = n.out
     /\ e.t # "X" => (e.sc = n.sc /\ e.top = Top(n) /\ e.depth = Len(n.ms) /\ (e.empty = 1) = (n.stk = <<>>))
     /\ (e.t = "r" /\ "cl" \in DOMAIN e) => Received(e, n)
     /\ v.a # 0 => (e.a = v.a /\ (Cur(n).edited \/ e.pos = Positions(Cur(n))))

Step == /\ l >= 1 /\ l <= Len(Sess[k].ev)
        /\ k' = k
        /\ IF E0.t = "N"
           THEN /\ lx' = Restart(lx, Sess[k].J[E0.id], X0.tab) /\ l' = l + 1
           ELSE LET o == Advance(X0, Sess[k].J, lx, IF X0.tie /\ E0.t \in {"R", "E"} THEN E0.a ELSE 0)
                IN IF o[2].t = "U" THEN l' = 0 /\ lx' = lx
                   ELSE IF Good(E0, o)
                   THEN /\ lx' = [o[1] EXCEPT !.out = <<>>] /\ l' = l + 1
                   ELSE /\ PrintT(<<"REJECT", k, l, [v |-> o[2], out |-> o[1].out, sc |-> o[1].sc, top |-> Top(o[1]), depth |-> Len(o[1].ms),
                                                     pos |-> IF o[2].a # 0 THEN Positions(Cur(o[1])) ELSE <<>>]>>)
                        /\ l' = 0 /\ lx' = lx
Next == Step

TypeOK == /\ Len(lx.ms) \in 1..4 /\ lx.sc \in 0..(X0.n - 1)
          /\ \A i \in 1..Len(lx.ms) : lx.ms[i].cur <= lx.ms[i].pos /\ lx.ms[i].pos <= Len(lx.ms[i].I)
          /\ lx.pc \in {"call", "scan", "ops", "stop"}
=============================================================================
