-------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* POSIX basic and extended regular expressions (without back-references):  *)
(* RegexParse(bytes, "bre" | "ere") = [ok, re], RegexMatch(re, s, fold) is  *)
(* TRUE iff the whole of s matches.                                         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Bytes
LOCAL INSTANCE Glob

Eps == [k |-> "eps"]
RBad == [ok |-> FALSE, re |-> Eps, i |-> 0]
ROk(re, i) == [ok |-> TRUE, re |-> re, i |-> i]
RCat(a, b) == IF a.k = "eps" THEN b ELSE IF b.k = "eps" THEN a ELSE [k |-> "cat", l |-> a, r |-> b]

\* The end of the bracket expression starting at p[i] = '[' (index of ']'), or 0
RECURSIVE BrEnd(_, _, _)
BrEnd(p, i, first) ==
    IF i > Len(p) THEN 0
    ELSE IF p[i] = 93 /\ ~first THEN i
    ELSE IF p[i] = 91 /\ i < Len(p) /\ p[i + 1] = 58 THEN
        LET e == IndexFrom(p, 58, i + 2) IN
        IF e # 0 /\ e < Len(p) /\ p[e + 1] = 93 THEN BrEnd(p, e + 2, FALSE) ELSE 0
    ELSE BrEnd(p, i + 1, FALSE)
BrStart(p, i) == IF i + 1 <= Len(p) /\ p[i + 1] = 94 THEN i + 2 ELSE i + 1

\* {m}, {m,} or {m,n} whose first digit is at i: [ok, lo, hi, i], hi = -1: unbounded
RECURSIVE ReNum(_, _, _)
ReNum(p, i, v) == IF i <= Len(p) /\ IsDigit(p[i]) THEN ReNum(p, i + 1, v * 10 + p[i] - 48) ELSE [v |-> v, i |-> i]
Interval(p, i, ere) ==
    LET a == ReNum(p, i, 0)
        comma == a.i <= Len(p) /\ p[a.i] = 44
        b == IF comma THEN ReNum(p, a.i + 1, 0) ELSE a
        hi == IF ~comma THEN a.v ELSE IF b.i = a.i + 1 THEN -1 ELSE b.v
        closed == IF ere THEN b.i <= Len(p) /\ p[b.i] = 125
                  ELSE b.i < Len(p) /\ p[b.i] = 92 /\ p[b.i + 1] = 125
    IN [ok |-> a.i > i /\ closed /\ (hi = -1 \/ hi >= a.v), lo |-> a.v, hi |-> hi, i |-> b.i + (IF ere THEN 1 ELSE 2)]

RECURSIVE Alt(_, _, _), AltRest(_, _, _, _), Seq1(_, _, _, _, _), Post(_, _, _, _)
\* Repetition operators after an atom
Post(p, i, ere, re) ==
    IF i > Len(p) THEN ROk(re, i)
    ELSE IF p[i] = 42 THEN Post(p, i + 1, ere, [k |-> "rep", lo |-> 0, hi |-> -1, r |-> re])
    ELSE IF ere /\ p[i] = 43 THEN Post(p, i + 1, ere, [k |-> "rep", lo |-> 1, hi |-> -1, r |-> re])
    ELSE IF ere /\ p[i] = 63 THEN Post(p, i + 1, ere, [k |-> "rep", lo |-> 0, hi |-> 1, r |-> re])
    ELSE IF (ere /\ p[i] = 123) \/ (~ere /\ i < Len(p) /\ p[i] = 92 /\ p[i + 1] = 123) THEN
        LET v == Interval(p, IF ere THEN i + 1 ELSE i + 2, ere) IN
        IF v.ok THEN Post(p, v.i, ere, [k |-> "rep", lo |-> v.lo, hi |-> v.hi, r |-> re]) ELSE RBad
    ELSE ROk(re, i)
\* A sequence of atoms, up to | or ) or the end
Seq1(p, i, ere, acc, start) ==
    LET esc == i < Len(p) /\ p[i] = 92
        lp == IF ere THEN i <= Len(p) /\ p[i] = 40 ELSE esc /\ p[i + 1] = 40
        rp == IF ere THEN i <= Len(p) /\ p[i] = 41 ELSE esc /\ p[i + 1] = 41
        n == IF ere THEN 1 ELSE 2
        next(r) == IF ~r.ok THEN RBad ELSE Seq1(p, r.i, ere, RCat(acc, r.re), FALSE)
    IN IF i > Len(p) \/ rp \/ (ere /\ p[i] = 124) THEN ROk(acc, i)
       ELSE IF lp THEN
           LET g == Alt(p, i + n, ere) IN
           IF ~g.ok THEN RBad
           ELSE IF (IF ere THEN g.i <= Len(p) /\ p[g.i] = 41 ELSE g.i < Len(p) /\ p[g.i] = 92 /\ p[g.i + 1] = 41)
                THEN next(Post(p, g.i + n, ere, g.re)) ELSE RBad
       ELSE IF p[i] = 91 THEN
           LET e == BrEnd(p, BrStart(p, i), TRUE) IN
           IF e = 0 THEN RBad ELSE next(Post(p, e + 1, ere, [k |-> "set", b |-> SubSeq(p, i + 1, e)]))
       ELSE IF p[i] = 46 THEN next(Post(p, i + 1, ere, [k |-> "any"]))
       ELSE IF p[i] = 92 THEN
           IF i = Len(p) THEN RBad ELSE next(Post(p, i + 2, ere, [k |-> "ch", c |-> p[i + 1]]))
       ELSE IF ere /\ p[i] \in {42, 43, 63, 123} THEN RBad
       ELSE next(Post(p, i + 1, ere, [k |-> "ch", c |-> p[i]]))
AltRest(p, i, ere, l) ==
    IF ere /\ i <= Len(p) /\ p[i] = 124 THEN
        LET r == Seq1(p, i + 1, ere, Eps, TRUE) IN
        IF ~r.ok THEN RBad ELSE AltRest(p, r.i, ere, [k |-> "alt", l |-> l, r |-> r.re])
    ELSE ROk(l, i)
Alt(p, i, ere) == LET l == Seq1(p, i, ere, Eps, TRUE) IN IF ~l.ok THEN RBad ELSE AltRest(p, l.i, ere, l.re)

RegexParse(b, type) ==
    LET r == Alt(b, 1, type = "ere") IN
    [ok |-> r.ok /\ r.i = Len(b) + 1, re |-> r.re]

\* Is byte c listed in the bracket text b (no backslash escapes in POSIX brackets)?
RECURSIVE RScan(_, _, _, _, _)
RScan(b, i, c, first, hit) ==
    IF i > Len(b) \/ (b[i] = 93 /\ ~first) THEN hit
    ELSE IF b[i] = 91 /\ i < Len(b) /\ b[i + 1] = 58 THEN
        LET e == IndexFrom(b, 58, i + 2)
            m == {n \in ClassNames : ClassBytes[n] = SubSeq(b, i + 2, e - 1)}
        IN RScan(b, e + 2, c, FALSE, hit \/ (m # {} /\ InClass(CHOOSE n \in m : TRUE, c)))
    ELSE IF i + 2 <= Len(b) /\ b[i + 1] = 45 /\ b[i + 2] # 93
         THEN RScan(b, i + 3, c, FALSE, hit \/ (b[i] <= c /\ c <= b[i + 2]))
    ELSE RScan(b, i + 1, c, FALSE, hit \/ c = b[i])

InSet(b, c, fold) ==
    \* b: the text after '[' including the closing ']'
    LET neg == b[1] = 94
        has(d) == RScan(b, IF neg THEN 2 ELSE 1, d, TRUE, FALSE)
    IN (has(c) \/ (fold /\ IsAlpha(c) /\ (has(ToLower(c)) \/ has(ToLower(c) - 32)))) # neg

\* The set of end positions of matches of re in s from the positions I
RECURSIVE Ends(_, _, _, _), Reps(_, _, _, _, _, _)
Ends(re, s, I, fold) ==
    LET one(ok(_)) == {i + 1 : i \in {x \in I : x <= Len(s) /\ ok(s[x])}} IN
    CASE re.k = "eps" -> I
      [] re.k = "ch" -> one(LAMBDA c : c = re.c \/ (fold /\ ToLower(c) = ToLower(re.c)))
      [] re.k = "any" -> one(LAMBDA c : TRUE)
      [] re.k = "set" -> one(LAMBDA c : InSet(re.b, c, fold))
      [] re.k = "cat" -> Ends(re.r, s, Ends(re.l, s, I, fold), fold)
      [] re.k = "alt" -> Ends(re.l, s, I, fold) \cup Ends(re.r, s, I, fold)
      [] re.k = "rep" -> Reps(re, s, I, 0, fold, IF re.lo = 0 THEN I ELSE {})
\* cur: positions after n repetitions; acc: accepted positions so far
Reps(re, s, cur, n, fold, acc) ==
    IF cur = {} \/ (re.hi >= 0 /\ n >= re.hi) THEN acc
    ELSE LET nxt == Ends(re.r, s, cur, fold)
             fresh == IF n + 1 >= re.lo THEN nxt \ acc ELSE nxt
             acc2 == IF n + 1 >= re.lo THEN acc \cup nxt ELSE acc
         IN Reps(re, s, fresh, n + 1, fold, acc2)

RegexMatch(re, s, fold) == Len(s) + 1 \in Ends(re, s, {1}, fold)
=============================================================================
