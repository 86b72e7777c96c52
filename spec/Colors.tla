------------------------------- MODULE Colors -------------------------------
(***************************************************************************)
(* $LS_COLORS and $BFS_COLORS: ColorTable(ls, bfs) = [ok, t, ext], where    *)
(*   t    maps the known names to sequences; <<>> and absent differ:        *)
(*        t[k] = [on, b]                                                    *)
(*   ext  is the sequence of [s, v, cs]: suffix, sequence, case-sensitive   *)
(* and the quoting of text that could disturb the terminal.                 *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Bytes

None == [on |-> FALSE, b |-> <<>>]
Some(b) == [on |-> TRUE, b |-> b]

Defaults ==
    ("rs" :> Some(B("0")) @@ "lc" :> Some(<<27, 91>>) @@ "rc" :> Some(B("m")) @@ "ec" :> None
     @@ "no" :> None @@ "fi" :> Some(<<>>) @@ "mh" :> None @@ "ex" :> Some(B("01;32")) @@ "ca" :> None
     @@ "sg" :> Some(B("30;43")) @@ "su" :> Some(B("37;41")) @@ "di" :> Some(B("01;34"))
     @@ "st" :> Some(B("37;44")) @@ "ow" :> Some(B("34;42")) @@ "tw" :> Some(B("30;42"))
     @@ "ln" :> Some(B("01;36")) @@ "or" :> None @@ "mi" :> None @@ "bd" :> Some(B("01;33"))
     @@ "cd" :> Some(B("01;33")) @@ "do" :> Some(B("01;35")) @@ "pi" :> Some(B("33")) @@ "so" :> Some(B("01;35")))

\* The name with these bytes, or ""
NameOf(k) == LET m == {n \in DOMAIN Defaults : B(n) = k} IN IF m = {} THEN "" ELSE CHOOSE n \in m : TRUE

HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
RECURSIVE OctRun(_, _, _)
OctRun(s, i, v) == IF i <= Len(s) /\ IsOctal(s[i]) THEN OctRun(s, i + 1, (v * 8 + s[i] - 48) % 256) ELSE [v |-> v, i |-> i]
RECURSIVE HexRun(_, _, _)
HexRun(s, i, v) == IF i <= Len(s) /\ HexVal(s[i]) >= 0 THEN HexRun(s, i + 1, (v * 16 + HexVal(s[i])) % 256) ELSE [v |-> v, i |-> i]

CEsc(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 101 -> 27 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13
             [] c = 116 -> 9 [] c = 118 -> 11 [] c = 63 -> 127 [] c = 95 -> 32 [] OTHER -> c

\* Read s from i up to an unescaped end: [ok, b, i], i after the end or Len(s) + 2 if it is missing
RECURSIVE Unesc(_, _, _, _)
Unesc(s, i, end, acc) ==
    IF i > Len(s) THEN [ok |-> TRUE, b |-> acc, i |-> Len(s) + 2]
    ELSE IF s[i] = end THEN [ok |-> TRUE, b |-> acc, i |-> i + 1]
    ELSE IF s[i] \in {92, 94} /\ i = Len(s) THEN [ok |-> FALSE, b |-> acc, i |-> i]
    ELSE IF s[i] = 92 THEN
        LET c == s[i + 1] IN
        IF IsOctal(c) THEN LET o == OctRun(s, i + 1, 0) IN Unesc(s, o.i, end, Append(acc, o.v))
        ELSE IF c \in {88, 120} THEN LET h == HexRun(s, i + 2, 0) IN Unesc(s, h.i, end, Append(acc, h.v))
        ELSE Unesc(s, i + 2, end, Append(acc, CEsc(c)))
    ELSE IF s[i] = 94 THEN Unesc(s, i + 2, end, Append(acc, IF s[i + 1] = 63 THEN 127 ELSE s[i + 1] % 32))
    ELSE Unesc(s, i + 1, end, Append(acc, s[i]))

AllZero(b) == \A i \in 1..Len(b) : b[i] = 48

RECURSIVE Chunks(_, _, _)
Chunks(T, s, i) ==
    IF i > Len(s) THEN T
    ELSE IF s[i] = 42 THEN
        LET k == Unesc(s, i + 1, 61, <<>>)
            v == Unesc(s, k.i, 58, <<>>)
        IN IF ~k.ok \/ k.i > Len(s) + 1 \/ ~v.ok THEN [T EXCEPT !.ok = FALSE]
           ELSE Chunks(IF Contains(k.b, 0) THEN T ELSE [T EXCEPT !.ext = Append(@, [s |-> k.b, v |-> v.b, cs |-> FALSE])], s, v.i)
    ELSE LET e == IndexFrom(s, 61, i)
             n == NameOf(SubSeq(s, i, e - 1))
             v == Unesc(s, e + 1, 58, <<>>)
         IN IF e = 0 THEN T
            ELSE IF ~v.ok THEN [T EXCEPT !.ok = FALSE]
            ELSE IF n = "" THEN Chunks(T, s, v.i)
            ELSE Chunks([T EXCEPT !.t[n] = IF AllZero(v.b) /\ n \notin {"rs", "lc", "rc", "ec"} THEN None ELSE Some(v.b)], s, v.i)

\* An extension hides the earlier ones that end with it
Visible(x) == LET RECURSIVE f(_)
                  f(i) == IF i > Len(x) THEN <<>>
                          ELSE IF \E j \in (i + 1)..Len(x) : EndsWith(x[i].s, x[j].s) THEN f(i + 1)
                          ELSE <<x[i]>> \o f(i + 1)
              IN f(1)
\* The same extension in different capitalisations with different values is case-sensitive
RECURSIVE SmartCase(_, _)
SmartCase(x, i) ==
    IF i > Len(x) THEN x
    ELSE LET prev == {j \in 1..(i - 1) : Lower(x[j].s) = Lower(x[i].s)}
             j == CHOOSE j \in prev : \A k \in prev : k <= j
         IN IF prev # {} /\ (x[j].cs \/ x[j].v # x[i].v)
            THEN SmartCase([x EXCEPT ![i].cs = TRUE, ![j].cs = TRUE], i + 1)
            ELSE SmartCase(x, i + 1)

ColorTable(ls, bfs) ==
    LET a == Chunks([ok |-> TRUE, t |-> Defaults, ext |-> <<>>], ls, 1)
        b == IF a.ok THEN Chunks(a, bfs, 1) ELSE a
        target == b.t["ln"] = Some(B("target"))
        t == b.t
        ec == IF t["ec"].on THEN t["ec"].b ELSE t["lc"].b \o t["rs"].b \o t["rc"].b
    IN [ok |-> b.ok, ext |-> SmartCase(Visible(b.ext), 1), target |-> target, end |-> ec,
        t |-> IF target THEN [t EXCEPT !["ln"] = Some(<<>>)] ELSE t]

\* The colour of a file name by its extension: the last entry that matches
ExtColor(T, name) ==
    LET m == {i \in 1..Len(T.ext) : \/ EndsWith(name, T.ext[i].s)
                                    \/ ~T.ext[i].cs /\ EndsWith(Lower(name), Lower(T.ext[i].s))}
    IN IF m = {} THEN None ELSE Some(T.ext[CHOOSE i \in m : \A j \in m : j <= i].v)

---------------------------------------------------------------------------
(* Text on a terminal: unprintable characters are shown as $'...' *)
PlainText(c) == (c >= 32 /\ c < 127) \/ (c >= 9 /\ c <= 13)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
DEsc(c) == CASE c = 7 -> <<92, 97>> [] c = 8 -> <<92, 98>> [] c = 27 -> <<92, 101>> [] c = 39 -> <<92, 39>>
             [] c = 92 -> <<92, 92>> [] OTHER -> <<92, 120, HexDigit(c \div 16), HexDigit(c % 16)>>
RECURSIVE Quoted(_)
Quoted(s) == IF s = <<>> THEN <<>>
             ELSE (IF PlainText(s[1]) /\ s[1] \notin {39, 92} THEN <<s[1]>> ELSE DEsc(s[1])) \o Quoted(Tail(s))
TtyText(s) == IF s = <<>> THEN <<34, 34>>
              ELSE IF \A i \in 1..Len(s) : PlainText(s[i]) THEN s
              ELSE <<36, 39>> \o Quoted(s) \o <<39>>

\* Text with an optional colour
Colored(T, c, s) ==
    IF s = <<>> THEN <<>>
    ELSE IF c.on THEN T.t["lc"].b \o c.b \o T.t["rc"].b \o TtyText(s) \o T.end
    ELSE TtyText(s)
=============================================================================
