----------------------------- MODULE InputTrace -----------------------------
(***************************************************************************)
(* Recorded reads of input sources are behaviours of a reader of Content:  *)
(* every read returns the next bytes, at least one while there are any.    *)
(* Events: g get(n) -> x bytes; c get one -> r; p peek -> r; s size -> r;  *)
(* e -> r eof(), g good().  Wrappers: I Input, B BufferedInput,            *)
(* S/T stream buffers, D/E stream buffers of DOS files.                    *)
(***************************************************************************)
EXTENDS Input, Json, IOUtils, TLC

Sess == ndJsonDeserialize(IOEnv.TRACE)
Pages == JsonDeserialize(IOEnv.PAGES)

VARIABLES k, l, pos, end, D
vars == <<k, l, pos, end, D>>

Page(s) == IF s.page = 0 THEN <<>> ELSE Pages[s.page]

Content(s) ==
  LET c == CASE s.kind = "w" -> FromUnits(s.F)
             [] s.kind \in {"f", "m", "n", "q"} -> FileContent(SubSeq(s.F, s.off + 1, Len(s.F)), s.enc, s.set, Page(s))
             [] OTHER -> s.F
  IN IF s.wrap \in {"D", "E"} THEN Dos(c) ELSE c

Init == /\ k \in 1..Len(Sess)
        /\ l = 1 /\ pos = 0 /\ end = FALSE
        /\ D = Content(Sess[k])

Rem == Len(D) - pos
Exact(s) == s.wrap # "I" \/ s.kind \in {"c", "s"}

OK(s, e) ==
  CASE e.o = "g" -> /\ Len(e.x) <= e.n /\ Len(e.x) <= Rem
                    /\ e.x = SubSeq(D, pos + 1, pos + Len(e.x))
                    /\ (e.n > 0 /\ Rem > 0) => Len(e.x) > 0
                    /\ Exact(s) => Len(e.x) = (IF e.n < Rem THEN e.n ELSE Rem)
    [] e.o \in {"c", "p"} -> e.r = (IF Rem > 0 THEN D[pos + 1] ELSE -1)
    \* size() is for use before reading; zero when it cannot be determined
    [] e.o = "s" -> \/ e.r = Rem
                    \/ s.kind \in {"n", "q"} /\ (e.r = 0 \/ s.wrap = "B") /\ e.r <= Rem
                    \/ pos > 0
                    \/ s.wrap # "I" /\ s.wrap # "B"
    [] e.o = "e" -> /\ (e.r = 1 => Rem = 0)
                    /\ (e.g = 0 => Rem = 0 \/ s.kind = "n") \* n: an error that the handler resolves
                    \* size() of a file clears the end of file status
                    /\ (end => (e.g = 0 /\ e.r = 1) \/ \E i \in 1..l : s.ev[i].o = "s")
    [] OTHER -> TRUE

Adv(e) == CASE e.o = "g" -> Len(e.x) [] e.o = "c" /\ e.r >= 0 -> 1 [] OTHER -> 0

Next ==
  /\ l <= Len(Sess[k].ev)
  /\ LET s == Sess[k]
         e == s.ev[l]
     IN IF OK(s, e)
        THEN /\ pos' = pos + Adv(e)
             /\ end' = (end \/ (e.o = "g" /\ e.n > 0 /\ Len(e.x) = 0) \/ (e.o = "c" /\ e.r < 0))
             /\ l' = l + 1
             /\ UNCHANGED <<k, D>>
        ELSE /\ PrintT(<<"REJECT", k, l, pos, SubSeq(D, pos + 1, IF Rem > 12 THEN pos + 12 ELSE Len(D)), Rem>>)
             /\ l' = 1000000
             /\ UNCHANGED <<k, pos, end, D>>
TypeOK == pos >= 0 /\ (l < 1000000 => pos <= Len(D))
=============================================================================
