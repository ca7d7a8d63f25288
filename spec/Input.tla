------------------------------- MODULE Input -------------------------------
(***************************************************************************)
(* Decoding of input sources into the UTF-8 byte sequence that a reader    *)
(* receives, for any sequence of read calls.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Utf8

\* encodings: the public constants
PLAIN == 0  U8 == 1  U16BE == 2  U16LE == 3  U32BE == 4  U32LE == 5  LATIN == 6

Starts(F, b) == Len(F) >= Len(b) /\ SubSeq(F, 1, Len(b)) = b

\* byte order mark: <<encoding, length>>
Bom(F) ==
  CASE Starts(F, <<255, 254, 0, 0>>)     -> <<U32LE, 4>>
    [] Starts(F, <<0, 0, 254, 255>>)     -> <<U32BE, 4>>
    [] Starts(F, <<239, 187, 191>>)      -> <<U8, 3>>
    [] Starts(F, <<254, 255>>)           -> <<U16BE, 2>>
    [] Starts(F, <<255, 254>>)           -> <<U16LE, 2>>
    [] OTHER                             -> <<PLAIN, 0>>

NONCHAR == <<248, 136, 128, 128, 128>> \* documented: U+200000, outside of Unicode
High(u) == u >= 55296 /\ u < 56320
Low(u)  == u >= 56320 /\ u < 57344

\* sequence of UTF-16/32 units; a unit beyond U+FFFF is a character, an unpaired surrogate is replaced
FromUnits(us) ==
  LET step(a, u) ==
        CASE a.hi >= 0 /\ Low(u) -> [out |-> a.out \o Enc(65536 + (a.hi - 55296) * 1024 + (u - 56320)), hi |-> -1]
          [] OTHER ->
             LET o == IF a.hi >= 0 THEN a.out \o NONCHAR ELSE a.out IN
             CASE High(u)      -> [out |-> o, hi |-> u]
               [] Low(u)       -> [out |-> o \o NONCHAR, hi |-> -1]
               [] u > 1114111  -> [out |-> o \o NONCHAR, hi |-> -1]
               [] OTHER        -> [out |-> o \o Enc(u), hi |-> -1]
      r == FoldLeft(step, [out |-> <<>>, hi |-> -1], us)
  IN IF r.hi >= 0 THEN r.out \o NONCHAR ELSE r.out

\* units of width w bytes, an incomplete unit at the end is no character
Units(F, w, le) ==
  [ i \in 1..(Len(F) \div w) |->
      LET b(j) == F[(i - 1) * w + j] IN
      IF w = 2 THEN (IF le THEN b(1) + 256 * b(2) ELSE 256 * b(1) + b(2))
      ELSE IF le THEN b(1) + 256 * b(2) + 65536 * b(3) + 16777216 * b(4)
      ELSE 16777216 * b(1) + 65536 * b(2) + 256 * b(3) + b(4) ]

\* content of bytes F in encoding e with code page pg (256 code points)
Decode(F, e, pg) ==
  CASE e \in {PLAIN, U8} -> F
    [] e = U16BE -> FromUnits(Units(F, 2, FALSE))
    [] e = U16LE -> FromUnits(Units(F, 2, TRUE))
    [] e = U32BE -> FromUnits(Units(F, 4, FALSE))
    [] e = U32LE -> FromUnits(Units(F, 4, TRUE))
    [] e = LATIN -> FlattenSeq([ i \in 1..Len(F) |-> Enc(F[i]) ])
    [] OTHER     -> FlattenSeq([ i \in 1..Len(F) |-> Enc(pg[F[i] + 1]) ])

\* a file: the byte order mark is not content and takes precedence over the encoding of the constructor (enc),
\* an encoding set later (set >= 0) applies to what follows the byte order mark
FileContent(F, enc, set, pg) ==
  LET m == Bom(F)
      e0 == IF m[2] > 0 THEN m[1] ELSE enc
      e == IF set >= 0 THEN set ELSE e0
  IN Decode(SubSeq(F, m[2] + 1, Len(F)), e, pg)

\* DOS line ends: CR LF is LF
Dos(D) ==
  LET keep == SelectSeq([ i \in 1..Len(D) |-> i ], LAMBDA i : ~(D[i] = 13 /\ i < Len(D) /\ D[i + 1] = 10))
  IN [ j \in 1..Len(keep) |-> D[keep[j]] ]
=============================================================================
