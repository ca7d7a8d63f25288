-------------------------------- MODULE Utf8 --------------------------------
\* UTF-8 encoding of code points (RFC 3629) over sequences of bytes
EXTENDS Integers, Sequences

Enc(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

IsCont(b) == b >= 128 /\ b < 192

\* length of the encoding led by byte b
SeqLen(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4

\* decode the code point starting at index i (1-based) of valid UTF-8
Dec1(s, i) ==
  LET b == s[i] IN
  CASE b < 128 -> b
    [] b < 224 -> (b - 192) * 64 + (s[i+1] - 128)
    [] b < 240 -> (b - 224) * 4096 + (s[i+1] - 128) * 64 + (s[i+2] - 128)
    [] OTHER   -> (b - 240) * 262144 + (s[i+1] - 128) * 4096 + (s[i+2] - 128) * 64 + (s[i+3] - 128)

\* a well-formed UTF-8 sequence starts at index i and does not run into a continuation byte
ValidAt(s, i) ==
  LET b == s[i]
      n == SeqLen(b)
  IN /\ ~IsCont(b) /\ b # 192 /\ b # 193 /\ b < 245
     /\ i + n - 1 <= Len(s)
     /\ \A j \in 1..(n - 1) : IsCont(s[i + j])
     /\ (b = 224 => s[i + 1] >= 160) /\ (b = 237 => s[i + 1] < 160)
     /\ (b = 240 => s[i + 1] >= 144) /\ (b = 244 => s[i + 1] < 144)
     /\ (i + n <= Len(s) => ~IsCont(s[i + n]))

RECURSIVE ValidFrom(_, _)
ValidFrom(s, i) == i > Len(s) \/ (ValidAt(s, i) /\ ValidFrom(s, i + SeqLen(s[i])))
=============================================================================
