-------------------------------- MODULE Glob --------------------------------
(***************************************************************************)
(* Shell pattern matching, as POSIX defines it for fnmatch() with no flags: *)
(* '/' and leading dots are ordinary characters, backslash quotes.  Byte    *)
(* semantics (the C locale).                                                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Bytes

ClassNames == {"alnum", "alpha", "blank", "cntrl", "digit", "graph",
               "lower", "print", "punct", "space", "upper", "xdigit"}
ClassBytes == [n \in ClassNames |-> B(n)]

InClass(n, c) ==
    CASE n = "alnum" -> IsAlpha(c) \/ IsDigit(c)
      [] n = "alpha" -> IsAlpha(c)
      [] n = "blank" -> c = 32 \/ c = 9
      [] n = "cntrl" -> c < 32 \/ c = 127
      [] n = "digit" -> IsDigit(c)
      [] n = "graph" -> c > 32 /\ c < 127
      [] n = "lower" -> IsLower(c)
      [] n = "print" -> c >= 32 /\ c < 127
      [] n = "punct" -> c > 32 /\ c < 127 /\ ~IsAlpha(c) /\ ~IsDigit(c)
      [] n = "space" -> IsSpace(c)
      [] n = "upper" -> IsUpper(c)
      [] n = "xdigit" -> IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)

F(c, fold) == IF fold THEN ToLower(c) ELSE c

(* Scan the bracket expression whose '[' is at p[i-1].  Returns
   [ok, next, hit]: whether it is terminated, the index after ']', and whether
   the byte c is listed (before applying the negation).  Case folding applies
   to characters and ranges, not to classes. *)
RECURSIVE Scan(_, _, _, _, _, _)
Scan(p, i, c, first, hit, fold) ==
    IF i > Len(p) THEN [ok |-> FALSE, next |-> 0, hit |-> FALSE]
    ELSE IF p[i] = 93 /\ ~first THEN [ok |-> TRUE, next |-> i + 1, hit |-> hit]
    ELSE IF p[i] = 91 /\ i < Len(p) /\ p[i+1] = 58 THEN
        LET e == IndexFrom(p, 58, i + 2) IN
        IF e # 0 /\ e < Len(p) /\ p[e+1] = 93 THEN
            LET nm == SubSeq(p, i + 2, e - 1)
                m == {n \in ClassNames : ClassBytes[n] = nm}
            IN IF m = {} THEN [ok |-> FALSE, next |-> 0, hit |-> FALSE]
               ELSE Scan(p, e + 2, c, FALSE, hit \/ InClass(CHOOSE n \in m : TRUE, c), fold)
        ELSE Scan(p, i + 1, c, FALSE, hit \/ c = 91, fold)
    ELSE
        LET esc == p[i] = 92 /\ i < Len(p)
            a == F(IF esc THEN p[i+1] ELSE p[i], fold)
            j == IF esc THEN i + 2 ELSE i + 1
            d == F(c, fold)
        IN IF j < Len(p) /\ p[j] = 45 /\ p[j+1] # 93 THEN
               LET esc2 == p[j+1] = 92 /\ j + 1 < Len(p)
                   b == F(IF esc2 THEN p[j+2] ELSE p[j+1], fold)
                   k == IF esc2 THEN j + 3 ELSE j + 2
               IN Scan(p, k, c, FALSE, hit \/ (a <= d /\ d <= b), fold)
           ELSE Scan(p, j, c, FALSE, hit \/ d = a, fold)

Bracket(p, i, c, fold) ==
    LET neg == i <= Len(p) /\ (p[i] = 33 \/ p[i] = 94)
        r == Scan(p, IF neg THEN i + 1 ELSE i, c, TRUE, FALSE, fold)
    IN [ok |-> r.ok, next |-> r.next, hit |-> r.hit # neg]

\* J: the positions of s that p[1..i-1] can have matched up to
RECURSIVE MatchFrom(_, _, _, _, _)
MatchFrom(p, i, s, J, fold) ==
    LET K == {j \in J : j <= Len(s)}
        lit(c) == {j + 1 : j \in {x \in K : F(c, fold) = F(s[x], fold)}}
    IN IF J = {} THEN FALSE
       ELSE IF i > Len(p) THEN Len(s) + 1 \in J
       ELSE IF p[i] = 42 THEN MatchFrom(p, i + 1, s, (CHOOSE j \in J : \A k \in J : j <= k)..(Len(s) + 1), fold)
       ELSE IF p[i] = 63 THEN MatchFrom(p, i + 1, s, {j + 1 : j \in K}, fold)
       ELSE IF p[i] = 91 THEN
            \* where a bracket expression ends does not depend on the byte it is tried on
            LET r == Bracket(p, i + 1, 97, fold) IN
            IF r.ok THEN MatchFrom(p, r.next, s, {j + 1 : j \in {x \in K : Bracket(p, i + 1, s[x], fold).hit}}, fold)
            ELSE MatchFrom(p, i + 1, s, lit(91), fold)
       ELSE IF p[i] = 92 THEN i < Len(p) /\ MatchFrom(p, i + 2, s, lit(p[i+1]), fold)
       ELSE MatchFrom(p, i + 1, s, lit(p[i]), fold)

\* A pattern that ends with an unescaped backslash never matches
RECURSIVE Backslashes(_, _)
Backslashes(p, i) == IF i >= 1 /\ p[i] = 92 THEN 1 + Backslashes(p, i - 1) ELSE 0

GlobMatch(p, s, fold) ==
    /\ Backslashes(p, Len(p)) % 2 = 0
    /\ MatchFrom(p, 1, s, {1}, fold)
=============================================================================
