-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Arbitrary precision naturals.  TLC integers are 32 bit, the library     *)
(* handles 128 and 256 bit ones, so a natural is a little-endian sequence  *)
(* of base-256 digits without trailing zeros (zero is <<>>).  A signed     *)
(* integer is a record [neg, mag] with neg = FALSE when mag = <<>>.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Byte == 0..255

RECURSIVE Norm(_)
Norm(d) == IF d = <<>> THEN <<>>
           ELSE IF d[Len(d)] # 0 THEN d
           ELSE Norm(SubSeq(d, 1, Len(d) - 1))

\* natural from a TLC integer
RECURSIVE NatOf(_)
NatOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o NatOf(n \div 256)

\* TLC integer from a natural; only for naturals below 2^31
RECURSIVE IntOf(_)
IntOf(d) == IF d = <<>> THEN 0 ELSE d[1] + 256 * IntOf(Tail(d))
FitsInt(d) == Len(d) < 4 \/ (Len(d) = 4 /\ d[4] < 128)

Zeros(n) == [i \in 1..n |-> 0]
Pad(d, n) == d \o Zeros(n - Len(d))

\* -1, 0, 1 : comparison
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
Leq(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0

\* d * k + c for small k, c (k * 256 + c must stay below 2^31)
RECURSIVE MulAdd(_, _, _)
MulAdd(d, k, c) ==
    IF d = <<>> THEN NatOf(c)
    ELSE LET x == d[1] * k + c
         IN Norm(<<x % 256>> \o MulAdd(Tail(d), k, x \div 256))

\* <<quotient, remainder>> of d by small k
RECURSIVE DivStep(_, _, _, _)
DivStep(d, k, i, rem) ==
    IF i = 0 THEN <<<<>>, rem>>
    ELSE LET x == rem * 256 + d[i]
             r == DivStep(d, k, i - 1, x % k)
         IN <<Append(r[1], x \div k), r[2]>>
DivMod(d, k) == LET r == DivStep(d, k, Len(d), 0) IN <<Norm(r[1]), r[2]>>

RECURSIVE AddCarry(_, _, _)
AddCarry(a, b, c) ==
    IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET x == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c
         IN <<x % 256>> \o AddCarry(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div 256)
Add(a, b) == Norm(AddCarry(a, b, 0))
Succ(a) == Add(a, <<1>>)

\* two's complement: 2^(8w) - m in w bytes (0 < m <= 2^(8w))
Complement(d, w) == LET p == Pad(d, w) IN [i \in 1..w |-> 255 - p[i]]
RECURSIVE IncFixed(_, _)
IncFixed(d, i) == IF i > Len(d) THEN d
                  ELSE IF d[i] = 255 THEN IncFixed([d EXCEPT ![i] = 0], i + 1)
                  ELSE [d EXCEPT ![i] = @ + 1]
Negate(d, w) == IncFixed(Complement(d, w), 1)

Pow2(k) == Zeros(k \div 8) \o <<2 ^ (k % 8)>>          \* 2^k

\* unsigned and signed fixed-width ranges and encodings (w bytes)
FitsU(m, w) == Len(m) <= w
EncU(m, w) == Pad(m, w)
DecU(b) == Norm(b)

FitsI(x, w) == IF x.neg THEN Leq(x.mag, Pow2(8 * w - 1)) ELSE Lt(x.mag, Pow2(8 * w - 1))
EncI(x, w) == IF x.neg THEN Negate(x.mag, w) ELSE Pad(x.mag, w)
DecI(b) == IF b[Len(b)] >= 128
           THEN [neg |-> TRUE, mag |-> Norm(Negate(b, Len(b)))]
           ELSE [neg |-> FALSE, mag |-> Norm(b)]

(***************************************************************************)
(* SCALE compact integers: minimal of the four modes.                      *)
(***************************************************************************)
EncCompact(m) ==
    IF Lt(m, <<64>>) THEN Pad(MulAdd(m, 4, 0), 1)
    ELSE IF Lt(m, Pow2(14)) THEN Pad(MulAdd(m, 4, 1), 2)
    ELSE IF Lt(m, Pow2(30)) THEN Pad(MulAdd(m, 4, 2), 4)
    ELSE LET n == IF Len(m) < 4 THEN 4 ELSE Len(m) IN <<(n - 4) * 4 + 3>> \o Pad(m, n)

\* [ok, m, n]: decoded natural and number of bytes used; maxw is the byte width of the integer type.
\* Only the minimal form of a number that fits the type is accepted.
DecCompact(b, pos, maxw) ==
    LET avail == Len(b) - pos + 1
        fail == [ok |-> FALSE]
        chk(m, n) == IF FitsU(m, maxw) /\ EncCompact(m) = SubSeq(b, pos, pos + n - 1)
                     THEN [ok |-> TRUE, m |-> m, n |-> n] ELSE fail
    IN IF avail < 1 THEN fail
       ELSE LET mode == b[pos] % 4 IN
            IF mode < 3
            THEN LET n == IF mode = 0 THEN 1 ELSE IF mode = 1 THEN 2 ELSE 4 IN
                 IF avail < n THEN fail
                 ELSE chk(DivMod(Norm(SubSeq(b, pos, pos + n - 1)), 4)[1], n)
            ELSE LET k == (b[pos] \div 4) + 4 IN
                 IF avail < k + 1 THEN fail
                 ELSE chk(Norm(SubSeq(b, pos + 1, pos + k)), k + 1)

(***************************************************************************)
(* Decimal text (code points).                                             *)
(***************************************************************************)
RECURSIVE Dec10(_)
Dec10(m) == IF m = <<>> THEN <<>> ELSE LET r == DivMod(m, 10) IN Append(Dec10(r[1]), 48 + r[2])
DecText(m) == IF m = <<>> THEN <<48>> ELSE Dec10(m)
IntText(x) == IF x.neg THEN <<45>> \o DecText(x.mag) ELSE DecText(x.mag)
TextNat(s) == FoldLeft(LAMBDA acc, c : MulAdd(acc, 10, c - 48), <<>>, s)   \* s: digits only

U128Max == [i \in 1..16 |-> 255]
FitsU128(m) == Len(m) <= 16
FitsI128(x) == FitsI(x, 16)

(***************************************************************************)
(* Self checks, evaluated by TLC at every run that extends this module.    *)
(***************************************************************************)
NumSelfTest ==
    /\ \A n \in {0, 1, 63, 64, 16383, 16384, 65535, 1073741823} :
          LET m == NatOf(n) c == EncCompact(m) d == DecCompact(c, 1, 16) IN
          IntOf(m) = n /\ d.ok /\ d.m = m /\ d.n = Len(c)
    /\ EncCompact(NatOf(1073741823)) = <<254, 255, 255, 255>>
    /\ EncCompact(Pow2(30)) = <<3, 0, 0, 0, 64>>
    /\ EncCompact(U128Max) = <<51>> \o U128Max
    /\ \A n \in {0, 9, 10, 255, 256, 99999} : IntOf(TextNat(DecText(NatOf(n)))) = n
    /\ DecText(Pow2(64)) = <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,54>>
    /\ EncI([neg |-> TRUE, mag |-> <<128>>], 1) = <<128>>
    /\ FitsI([neg |-> TRUE, mag |-> <<128>>], 1) /\ ~FitsI([neg |-> TRUE, mag |-> <<129>>], 1)
    /\ ~FitsI([neg |-> FALSE, mag |-> <<128>>], 1)
    /\ \A n \in {1, 127, 128, 255, 256, 32767, 32768} :
          LET x == [neg |-> TRUE, mag |-> NatOf(n)] IN DecI(EncI(x, 4)) = x
=============================================================================
