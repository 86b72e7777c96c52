------------------------------- MODULE Printf -------------------------------
(***************************************************************************)
(* The -printf format language: FormatParse(bytes) = [ok, items], and the   *)
(* rendering of fields with flags, width and precision.                     *)
(*                                                                         *)
(* An item is [k |-> "lit", b] or                                           *)
(*   [k |-> "dir", c, t, fl, w, p]: directive letter c (a byte), time       *)
(*   specifier t (0 if none), flags, width and precision (-1 if none).      *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Bytes

Directives == {b : b \in {B("abcdDfFgGhHiklmMnpPsStuUwyYABWCT")[i] : i \in 1..32}}
TimeDirectives == {65, 66, 67, 84, 87}
TimeSpecs == LET s == B("%+@aAbBcCdDeFgGhHIjklmMnprRsStTuUVwWxXyYzZ") IN {s[i] : i \in 1..Len(s)}
Numeric == {100, 109, 83}      \* %d, %m, %S
NumFlags == {35, 48, 43, 32}   \* # 0 + space
AllFlags == NumFlags \cup {45}

BadFormat == [ok |-> FALSE, items |-> <<>>]

\* Simple escapes
Esc(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
            [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] c = 92 -> 92 [] OTHER -> -1

\* Octal escape at i (at most 3 digits): [v, i]
RECURSIVE OctEsc(_, _, _, _)
OctEsc(b, i, n, v) ==
    IF n < 3 /\ i <= Len(b) /\ IsOctal(b[i]) THEN OctEsc(b, i + 1, n + 1, v * 8 + (b[i] - 48))
    ELSE [v |-> v % 256, i |-> i]

RECURSIVE Digits(_, _, _)
Digits(b, i, v) ==
    IF i <= Len(b) /\ IsDigit(b[i]) THEN Digits(b, i + 1, v * 10 + (b[i] - 48)) ELSE [v |-> v, i |-> i]

\* Flags at i: [ok, fl, i]
RECURSIVE FlagsAt(_, _, _)
FlagsAt(b, i, fl) ==
    IF i <= Len(b) /\ b[i] \in AllFlags
    THEN IF b[i] \in fl THEN [ok |-> FALSE, fl |-> fl, i |-> i] ELSE FlagsAt(b, i + 1, fl \cup {b[i]})
    ELSE [ok |-> TRUE, fl |-> fl, i |-> i]

AddLit(items, c) ==
    IF items # <<>> /\ Last(items).k = "lit"
    THEN [items EXCEPT ![Len(items)].b = Append(@, c)]
    ELSE Append(items, [k |-> "lit", b |-> <<c>>])

RECURSIVE Fmt(_, _, _)
Fmt(b, i, items) ==
    IF i > Len(b) THEN [ok |-> TRUE, items |-> items]
    ELSE IF b[i] = 92 THEN
        IF i = Len(b) THEN BadFormat
        ELSE LET c == b[i + 1] IN
             IF IsOctal(c) THEN LET o == OctEsc(b, i + 1, 0, 0) IN Fmt(b, o.i, AddLit(items, o.v))
             ELSE IF c = 99 THEN [ok |-> TRUE, items |-> items]     \* \c: stop here
             ELSE IF Esc(c) >= 0 THEN Fmt(b, i + 2, AddLit(items, Esc(c)))
             ELSE BadFormat
    ELSE IF b[i] = 37 THEN
        IF i < Len(b) /\ b[i + 1] = 37 THEN Fmt(b, i + 2, AddLit(items, 37))
        ELSE LET f == FlagsAt(b, i + 1, {})
                 w == Digits(b, f.i, 0)
                 hasP == w.i <= Len(b) /\ b[w.i] = 46
                 p == IF hasP THEN Digits(b, w.i + 1, 0) ELSE [v |-> -1, i |-> w.i]
                 c == IF p.i <= Len(b) THEN b[p.i] ELSE 0
                 t == IF c \in TimeDirectives /\ p.i < Len(b) THEN b[p.i + 1] ELSE 0
                 nxt == IF c \in TimeDirectives THEN p.i + 2 ELSE p.i + 1
             IN IF ~f.ok \/ c \notin Directives THEN BadFormat
                ELSE IF c \in TimeDirectives /\ t \notin TimeSpecs THEN BadFormat
                ELSE IF f.fl \cap NumFlags # {} /\ c \notin Numeric THEN BadFormat
                ELSE Fmt(b, nxt, Append(items, [k |-> "dir", c |-> c, t |-> t, fl |-> f.fl, w |-> w.v, p |-> p.v]))
    ELSE Fmt(b, i + 1, AddLit(items, b[i]))

FormatParse(b) == Fmt(b, 1, <<>>)

Pad(s, w, left) ==
    IF Len(s) >= w THEN s
    ELSE IF left THEN s \o Rep(32, w - Len(s)) ELSE Rep(32, w - Len(s)) \o s

\* %s with width and precision
FmtStr(it, s) == Pad(IF it.p >= 0 THEN Take(s, it.p) ELSE s, it.w, 45 \in it.fl)

\* %d / %o of a natural number
FmtNum(it, n, octal) ==
    LET d0 == IF it.p = 0 /\ n = 0 THEN <<>> ELSE IF octal THEN Oct(n) ELSE Dec(n)
        d1 == IF Len(d0) < it.p THEN Rep(48, it.p - Len(d0)) \o d0 ELSE d0
        d2 == IF octal /\ 35 \in it.fl /\ (d1 = <<>> \/ d1[1] # 48) THEN <<48>> \o d1 ELSE d1
        sign == IF octal THEN <<>> ELSE IF 43 \in it.fl THEN <<43>> ELSE IF 32 \in it.fl THEN <<32>> ELSE <<>>
        zero == 48 \in it.fl /\ 45 \notin it.fl /\ it.p < 0
        len == Len(sign) + Len(d2)
    IN IF zero /\ len < it.w THEN sign \o Rep(48, it.w - len) \o d2
       ELSE Pad(sign \o d2, it.w, 45 \in it.fl)
=============================================================================
