-------------------------------- MODULE Ss58 --------------------------------
(***************************************************************************)
(* SS58 addresses: base58, Blake2b-512 (RFC 7693, unkeyed) and the         *)
(* address format.  A 64-bit word is a sequence of four 16-bit limbs,      *)
(* least significant first.                                                *)
(***************************************************************************)
EXTENDS Num, Chars, Bitwise

BlakeIV == <<<<51464, 62396, 58983, 27145>>,
             <<42811, 33994, 44677, 47975>>,
             <<63531, 65172, 62322, 15470>>,
             <<14065, 24349, 62778, 42319>>,
             <<33489, 44518, 21119, 20750>>,
             <<27679, 11070, 26764, 39685>>,
             <<48491, 64321, 55723, 8067>>,
             <<8569, 4990, 52505, 23520>>>>
Sigma == <<<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>,
           <<15, 11, 5, 9, 10, 16, 14, 7, 2, 13, 1, 3, 12, 8, 6, 4>>,
           <<12, 9, 13, 1, 6, 3, 16, 14, 11, 15, 4, 7, 8, 2, 10, 5>>,
           <<8, 10, 4, 2, 14, 13, 12, 15, 3, 7, 6, 11, 5, 1, 16, 9>>,
           <<10, 1, 6, 8, 3, 5, 11, 16, 15, 2, 12, 13, 7, 9, 4, 14>>,
           <<3, 13, 7, 11, 1, 12, 9, 4, 5, 14, 8, 6, 16, 15, 2, 10>>,
           <<13, 6, 2, 16, 15, 14, 5, 11, 1, 8, 7, 4, 10, 3, 9, 12>>,
           <<14, 12, 8, 15, 13, 2, 4, 10, 6, 1, 16, 5, 9, 7, 3, 11>>,
           <<7, 16, 15, 10, 12, 4, 1, 9, 13, 3, 14, 8, 2, 5, 11, 6>>,
           <<11, 3, 9, 5, 8, 7, 2, 6, 16, 12, 10, 15, 4, 13, 14, 1>>>>

Add64(a, b) == LET x1 == a[1] + b[1]
                   x2 == a[2] + b[2] + (x1 \div 65536)
                   x3 == a[3] + b[3] + (x2 \div 65536)
                   x4 == a[4] + b[4] + (x3 \div 65536)
               IN <<x1 % 65536, x2 % 65536, x3 % 65536, x4 % 65536>>
Xor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
Not64(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
Rotr32(a) == <<a[3], a[4], a[1], a[2]>>
Rotr16(a) == <<a[2], a[3], a[4], a[1]>>
Half(x, y) == (x \div 256) + ((y % 256) * 256)
Rotr24(a) == <<Half(a[2], a[3]), Half(a[3], a[4]), Half(a[4], a[1]), Half(a[1], a[2])>>
Dbl(x, y) == ((x * 2) % 65536) + (y \div 32768)
Rotr63(a) == <<Dbl(a[1], a[4]), Dbl(a[2], a[1]), Dbl(a[3], a[2]), Dbl(a[4], a[3])>>

Mix(v, a, b, c, d, x, y) ==
    LET a1 == Add64(Add64(v[a], v[b]), x)
        d1 == Rotr32(Xor64(v[d], a1))
        c1 == Add64(v[c], d1)
        b1 == Rotr24(Xor64(v[b], c1))
        a2 == Add64(Add64(a1, b1), y)
        d2 == Rotr16(Xor64(d1, a2))
        c2 == Add64(c1, d2)
        b2 == Rotr63(Xor64(b1, c2))
    IN [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
Lanes == <<<<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>,
           <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>>>>
\* one block: h the state, m 16 words, n bytes so far, last
BlakeBlock(h, m, n, last) ==
    LET v0 == h \o [i \in 1..8 |-> IF i = 5 THEN Xor64(BlakeIV[5], <<n % 65536, n \div 65536, 0, 0>>)
                                   ELSE IF i = 7 /\ last THEN Not64(BlakeIV[7]) ELSE BlakeIV[i]]
        step(v, k) == LET r == k \div 8
                          j == k % 8
                          sg == Sigma[1 + (r % 10)]
                          l == Lanes[j + 1]
                      IN Mix(v, l[1], l[2], l[3], l[4], m[sg[2 * j + 1]], m[sg[2 * j + 2]])
        v1 == FoldLeft(step, v0, [k \in 1..96 |-> k - 1])
    IN [i \in 1..8 |-> Xor64(h[i], Xor64(v1[i], v1[i + 8]))]
RECURSIVE BlakeFrom(_, _, _)
BlakeFrom(h, b, done) ==
    LET n == Len(b) - done
        k == IF n > 128 THEN 128 ELSE n
        byte(i) == IF i <= k THEN b[done + i] ELSE 0
        m == [w \in 1..16 |-> [q \in 1..4 |-> byte(8 * (w - 1) + 2 * q - 1) + 256 * byte(8 * (w - 1) + 2 * q)]]
        h1 == BlakeBlock(h, m, done + k, n <= 128)
    IN IF n <= 128 THEN h1 ELSE BlakeFrom(h1, b, done + k)
\* the first byte of the parameter block: digest length 64, no key, fanout and depth 1
Blake2b512(b) ==
    LET h0 == [BlakeIV EXCEPT ![1] = Xor64(@, <<64, 257, 0, 0>>)]
        h == BlakeFrom(h0, b, 0)
    IN FlattenSeq([i \in 1..8 |-> FlattenSeq([q \in 1..4 |-> <<h[i][q] % 256, h[i][q] \div 256>>])])

\* value of a base58 character, or -1
Base58Val(c) ==
    IF c >= 49 /\ c <= 57 THEN c - 49
    ELSE IF c >= 65 /\ c <= 72 THEN c - 65 + 9
    ELSE IF c >= 74 /\ c <= 78 THEN c - 74 + 17
    ELSE IF c >= 80 /\ c <= 90 THEN c - 80 + 22
    ELSE IF c >= 97 /\ c <= 107 THEN c - 97 + 33
    ELSE IF c >= 109 /\ c <= 122 THEN c - 109 + 44
    ELSE -1
LeadingOnes(s) == LET RECURSIVE L(_) L(j) == IF j <= Len(s) /\ s[j] = 49 THEN L(j + 1) ELSE j - 1 IN L(1)
Base58Dec(s) ==        \* [ok, b]
    IF \E i \in 1..Len(s) : Base58Val(s[i]) = -1 THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, b |-> Zeros(LeadingOnes(s)) \o Reverse(FoldLeft(LAMBDA acc, c : MulAdd(acc, 58, Base58Val(c)), <<>>, s))]
Ss58Pre == <<83, 83, 53, 56, 80, 82, 69>>
Ss58Payload(b) ==      \* [ok, b]
    LET pl == IF b # <<>> /\ b[1] < 64 THEN 1 ELSE 2
        body == SubSeq(b, 1, Len(b) - 2)
    IN IF b = <<>> \/ b[1] > 127 \/ Len(b) < pl + 2 THEN [ok |-> FALSE]
       ELSE IF SubSeq(Blake2b512(Ss58Pre \o body), 1, 2) # SubSeq(b, Len(b) - 1, Len(b)) THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, b |-> SubSeq(body, pl + 1, Len(body))]
\* position i of the text s: [ok, b, i]
Ss58At(s, i) ==
    LET RECURSIVE W(_, _)
        W(j, alnum) == IF j <= Len(s) /\ (IF alnum THEN IsAsciiAlnum(s[j]) ELSE IsSpace(s[j])) THEN W(j + 1, alnum) ELSE j
        j == W(i, TRUE)
        run == SubSeq(s, i, j - 1)
        after == W(j, FALSE)
        d == Base58Dec(run)
        p == Ss58Payload(d.b)
    IN IF run = <<>> \/ run \in {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>} \/ (\A q \in 1..Len(run) : IsDigit(run[q]))
          \/ (after <= Len(s) /\ s[after] \in {40, 123})
       THEN [ok |-> FALSE]
       ELSE IF ~d.ok THEN [ok |-> FALSE]
       ELSE IF ~p.ok THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, b |-> p.b, i |-> j]

\* RFC 7693, appendix A: BLAKE2b-512("abc"), and Alice's address
Base58Digit(d) == CHOOSE c \in 49..122 : Base58Val(c) = d
RECURSIVE Base58Digits(_)
Base58Digits(m) == IF m = <<>> THEN <<>> ELSE LET r == DivMod(m, 58) IN Append(Base58Digits(r[1]), Base58Digit(r[2]))
Base58Of(b) == LET RECURSIVE Z(_) Z(j) == IF j <= Len(b) /\ b[j] = 0 THEN Z(j + 1) ELSE j - 1
               IN [i \in 1..Z(1) |-> 49] \o Base58Digits(Norm(Reverse(b)))

Ss58SelfTest ==
    /\ SubSeq(Blake2b512(<<97, 98, 99>>), 1, 8) = <<186, 128, 165, 63, 152, 28, 77, 13>>
    /\ LET a == Ss58At(<<53, 71, 114, 119, 118, 97, 69, 70, 53, 122, 88, 98, 50, 54, 70, 122, 57, 114, 99, 81, 112, 68, 87, 83, 53, 55, 67, 116, 69, 82, 72, 112, 78, 101, 104, 88, 67, 80, 99, 78, 111, 72, 71, 75, 117, 116, 81, 89>>, 1) IN
       a.ok /\ a.b = <<212, 53, 147, 199, 21, 253, 211, 28, 97, 20, 26, 189, 4, 169, 159, 214, 130, 44, 133, 88, 133, 76, 205, 227, 154, 86, 132, 231, 165, 109, 162, 125>>
=============================================================================
