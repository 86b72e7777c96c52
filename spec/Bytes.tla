------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings.  File names, paths and outputs of bfs are arbitrary byte   *)
(* strings, so the specification represents them as sequences of integers   *)
(* 0..255.  Wide numbers (sizes, inode numbers, numeric arguments) exceed   *)
(* TLC's 32-bit integers; they are pairs <<hi, lo>> in base 2^20.           *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC

Printable ==
    " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CharCode == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
                31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch]

\* The byte string of a TLA+ string of printable characters
B(s) == [i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)]]
\* A single character
Ch(s) == CharCode[s]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Contains(s, c) == \E i \in 1..Len(s) : s[i] = c
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Rep(c, n) == [i \in 1..n |-> c]

\* Index of the first c in s at or after i, or 0
IndexFrom(s, c, i) ==
    IF \E j \in i..Len(s) : s[j] = c THEN CHOOSE j \in i..Len(s) : s[j] = c /\ \A k \in i..(j - 1) : s[k] # c ELSE 0
\* Index of the last c in s, or 0
LastIndexTo(s, c, i) ==
    IF \E j \in 1..i : s[j] = c THEN CHOOSE j \in 1..i : s[j] = c /\ \A k \in (j + 1)..i : s[k] # c ELSE 0
LastIndex(s, c) == LastIndexTo(s, c, Len(s))

\* Concatenate a sequence of byte strings
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* Byte-wise lexicographic order (strcoll() in the C locale)
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
    IF i > Len(a) THEN i <= Len(b)
    ELSE IF i > Len(b) THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LexFrom(a, b, i + 1)
LexLess(a, b) == LexFrom(a, b, 1)

IsDigit(c) == c >= 48 /\ c <= 57
IsOctal(c) == c >= 48 /\ c <= 55
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> ToLower(s[i])]

\* Decimal / octal representation of a small natural
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
RECURSIVE Oct(_)
Oct(n) == IF n < 8 THEN <<48 + n>> ELSE Append(Oct(n \div 8), 48 + (n % 8))

---------------------------------------------------------------------------
(* Wide naturals, <<hi, lo>> in base 2^20, saturating. *)
Base == 1048576
Sat == <<200000000, 0>>
WCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
              ELSE IF a[2] < b[2] THEN -1 ELSE IF a[2] > b[2] THEN 1 ELSE 0
W(n) == <<n \div Base, n % Base>>
\* a * k + d for small k, d
WMulAdd(a, k, d) ==
    LET lo == a[2] * k + d
        hi == IF a[1] >= 10000000 THEN 200000000 ELSE a[1] * k + (lo \div Base)
    IN IF hi >= 200000000 THEN Sat ELSE <<hi, lo % Base>>
\* Parse decimal digits s[i..]; the result is [v, i], i the first non-digit
RECURSIVE WParse(_, _, _)
WParse(s, i, acc) ==
    IF i <= Len(s) /\ IsDigit(s[i]) THEN WParse(s, i + 1, WMulAdd(acc, 10, s[i] - 48))
    ELSE [v |-> acc, i |-> i]
\* ceil(a / 2^k) for 0 <= k <= 50 (sizes stay below 2^48), as a wide natural
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
WCeilShift(a, k) ==
    IF k <= 20 THEN
        LET p == Pow2(k)
            low == (a[2] + p - 1) \div p              \* ceil of the low limb, 0..2^(20-k)
            q == Pow2(20 - k)
            \* value = a[1] * q + low
            hi == a[1] \div p
            mid == (a[1] % p) * q + low
        IN <<hi + (mid \div Base), mid % Base>>
    ELSE
        LET p == Pow2(k - 20)
            up == IF a[2] > 0 THEN 1 ELSE 0
        IN IF k > 48 THEN W(IF a = <<0, 0>> THEN 0 ELSE 1) ELSE W((a[1] + up + p - 1) \div p)
\* Decimal representation of a wide natural
RECURSIVE WDec(_)
WDec(a) == IF a[1] = 0 THEN Dec(a[2])
           ELSE LET t == (a[1] % 10) * Base + a[2] IN
                Append(WDec(<<a[1] \div 10, t \div 10>>), 48 + (t % 10))
=============================================================================
