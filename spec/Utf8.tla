-------------------------------- MODULE Utf8 --------------------------------
(* Strings are sequences of code points; this is their UTF-8 form.           *)
EXTENDS Integers, Sequences, SequencesExt

IsScalar(c) == (c >= 0 /\ c < 55296) \/ (c > 57343 /\ c <= 1114111)

CharWidth(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

CharBytes(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Utf8Enc(s) == FlattenSeq([i \in 1..Len(s) |-> CharBytes(s[i])])
Utf8Len(s) == FoldLeft(LAMBDA acc, c : acc + CharWidth(c), 0, s)

\* [ok, s]
RECURSIVE Utf8DecFrom(_, _)
Utf8DecFrom(b, i) ==
    IF i > Len(b) THEN [ok |-> TRUE, s |-> <<>>]
    ELSE LET h == b[i]
             n == IF h < 128 THEN 1 ELSE IF h >= 192 /\ h < 224 THEN 2
                  ELSE IF h >= 224 /\ h < 240 THEN 3 ELSE IF h >= 240 /\ h < 248 THEN 4 ELSE 0
             cont == \A j \in 1..(n - 1) : b[i + j] >= 128 /\ b[i + j] < 192
         IN IF n = 0 \/ i + n - 1 > Len(b) \/ ~cont THEN [ok |-> FALSE]
            ELSE LET c == CASE n = 1 -> h
                            [] n = 2 -> (h - 192) * 64 + (b[i + 1] - 128)
                            [] n = 3 -> (h - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)
                            [] n = 4 -> (h - 240) * 262144 + (b[i + 1] - 128) * 4096
                                        + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)
                     r == Utf8DecFrom(b, i + n)
                 IN IF ~IsScalar(c) \/ CharWidth(c) # n \/ ~r.ok THEN [ok |-> FALSE]
                    ELSE [ok |-> TRUE, s |-> <<c>> \o r.s]
Utf8Dec(b) == Utf8DecFrom(b, 1)
=============================================================================
