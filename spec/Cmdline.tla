------------------------------ MODULE Cmdline -------------------------------
(***************************************************************************)
(* The command-line language: from an argument vector to a configuration,   *)
(* a list of starting paths and an expression tree, or to an error.         *)
(*                                                                         *)
(* E is the environment of one command:                                     *)
(*   E.argv    sequence of [s, b]: argument as a string ("" if not plain    *)
(*             ASCII) and as bytes                                          *)
(*   E.fs      the file system at start                                     *)
(*   E.users, E.groups   sequences of [n, id]                               *)
(*   E.now, E.off, E.umask, E.stdin                                         *)
(*   E.files   sequence of [b, k]: file names usable by -fprint etc. and    *)
(*             the stream each denotes (1 = standard output)                *)
(*   E.f0      sequence of [b, c]: contents for -files0-from                *)
(*   E.badpath TRUE if $PATH has a relative component                       *)
(*   E.tty     TRUE if standard output is a terminal                        *)
(*   E.lsc, E.bfsc, E.noc   $LS_COLORS, $BFS_COLORS, $NO_COLOR              *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE Bitwise
LOCAL INSTANCE TLC
LOCAL INSTANCE Bytes
LOCAL INSTANCE FS
LOCAL INSTANCE Time
LOCAL INSTANCE Printf
LOCAL INSTANCE Regex
LOCAL INSTANCE Colors

MaxInt == 2147483647

InitCfg(E) ==
    [follow |-> "P", sort |-> FALSE, strat |-> "bfs", post |-> FALSE,
     xdev |-> FALSE, mount |-> FALSE, unique |-> FALSE, xsafe |-> FALSE,
     mind |-> 0, maxd |-> MaxInt, races |-> FALSE, noerr |-> FALSE,
     rtype |-> "bre", now |-> E.now, color |-> "auto"]

TrueE == [op |-> "leaf", k |-> "true", id |-> 0]
PrintE == [op |-> "leaf", k |-> "print", id |-> 0, st |-> 1]

InitP(E) ==
    [i |-> 1, roots |-> <<>>, cfg |-> InitCfg(E), started |-> FALSE, excl |-> <<>>,
     excluding |-> FALSE, implicit |-> TRUE, stdin |-> FALSE, files0 |-> 0,
     limit |-> FALSE, opened |-> {}, err |-> ""]

Res(P, e) == [P |-> P, e |-> e]
Bad(P, m) == [P |-> [P EXCEPT !.err = m], e |-> TrueE]
Failed(r) == r.P.err # ""

NArgs(E) == Len(E.argv)
Tok(E, i) == IF i <= NArgs(E) THEN E.argv[i].s ELSE ""
Byt(E, i) == E.argv[i].b
Has(E, i) == i <= NArgs(E)

---------------------------------------------------------------------------
(* Integers *)
Stripped(b) == LET RECURSIVE f(_)
                   f(i) == IF i <= Len(b) /\ b[i] = 48 THEN f(i + 1) ELSE Drop(b, i - 1)
               IN f(1)
LLMax == B("9223372036854775807")
\* Parse a signed decimal integer in b from index i: [ok, neg, v, next]
PInt(b, i) ==
    LET sg == i <= Len(b) /\ (b[i] = 43 \/ b[i] = 45)
        j == IF sg THEN i + 1 ELSE i
        p == WParse(b, j, <<0, 0>>)
        digs == Stripped(SubSeq(b, j, p.i - 1))
        big == Len(digs) > 19 \/ (Len(digs) = 19 /\ LexLess(LLMax, digs))
        zero == digs = <<>>
    IN [ok |-> p.i > j /\ ~big, neg |-> sg /\ b[i] = 45 /\ ~zero, v |-> p.v, next |-> p.i]

\* [+-]N with an optional tail: [ok, cmp, v, tail]
ICmp(b) ==
    LET c == IF b # <<>> /\ b[1] = 45 THEN "lt" ELSE IF b # <<>> /\ b[1] = 43 THEN "gt" ELSE "eq"
        n == PInt(b, IF c = "eq" THEN 1 ELSE 2)
    IN [ok |-> n.ok /\ ~n.neg, cmp |-> c, v |-> n.v, tail |-> Drop(b, n.next - 1)]

LooksLikeICmp(b) ==
    LET s(i) == i <= Len(b) /\ (b[i] = 43 \/ b[i] = 45)
        k == IF s(1) THEN (IF s(2) THEN 3 ELSE 2) ELSE 1
    IN k <= Len(b) /\ IsDigit(b[k])

IntMax == <<2047, 1048575>>
\* A plain int argument: [ok, v] with v a TLA+ integer
SmallInt(b) ==
    LET n == PInt(b, 1) IN
    IF n.ok /\ ~n.neg /\ n.next = Len(b) + 1 /\ WCmp(n.v, IntMax) <= 0
    THEN [ok |-> TRUE, v |-> n.v[1] * Base + n.v[2]]
    ELSE [ok |-> FALSE, v |-> 0]

---------------------------------------------------------------------------
(* Symbolic and octal modes, as for chmod(1).
   The result is [ok, f, d]: the mode for files and for directories. *)
BadMode == [ok |-> FALSE, f |-> 0, d |-> 0]
RECURSIVE OctVal(_, _, _)
OctVal(b, i, acc) == IF i > Len(b) THEN acc
                     ELSE OctVal(b, i + 1, IF acc > 4095 THEN 4096 ELSE acc * 8 + (b[i] - 48))

Rep3(x) == x * 64 + x * 8 + x
Clear(a, m) == a - (a & m)

\* The WHO letters at i: [who, i]
RECURSIVE Who(_, _, _)
Who(b, i, w) ==
    IF i <= Len(b) /\ b[i] \in {117, 103, 111, 97}
    THEN Who(b, i + 1, w | (CASE b[i] = 117 -> 448 [] b[i] = 103 -> 56 [] b[i] = 111 -> 7 [] b[i] = 97 -> 511))
    ELSE [who |-> w, i |-> i]

\* The PERM letters at i: [f, d, i]
RECURSIVE Perms(_, _, _, _, _, _)
Perms(b, i, who, mask, f, d) ==
    IF i > Len(b) THEN [f |-> f, d |-> d, i |-> i]
    ELSE LET c == b[i] IN
         IF c = 114 THEN Perms(b, i + 1, who, mask, f | (mask & 292), d | (mask & 292))
         ELSE IF c = 119 THEN Perms(b, i + 1, who, mask, f | (mask & 146), d | (mask & 146))
         ELSE IF c = 120 THEN Perms(b, i + 1, who, mask, f | (mask & 73), d | (mask & 73))
         ELSE IF c = 88 THEN Perms(b, i + 1, who, mask, f, d | (mask & 73))
         ELSE IF c = 115 THEN
             LET s == (IF (who & 448) # 0 THEN 2048 ELSE 0) + (IF (who & 56) # 0 THEN 1024 ELSE 0)
             IN Perms(b, i + 1, who, mask, f | s, d | s)
         ELSE IF c = 116 THEN
             LET t == IF (who & 7) # 0 THEN 512 ELSE 0 IN Perms(b, i + 1, who, mask, f | t, d | t)
         ELSE [f |-> f, d |-> d, i |-> i]

\* ACTION+ at i, then "," CLAUSE or the end
RECURSIVE Clause(_, _, _, _, _), Actions(_, _, _, _, _, _, _, _)
Clause(b, i, f, d, um) ==
    LET w == Who(b, i, 0)
        who == IF w.who = 0 THEN 511 ELSE w.who
        mask == IF w.who = 0 THEN Clear(511, um) ELSE w.who
    IN Actions(b, w.i, who, mask, f, d, um, TRUE)
Actions(b, i, who, mask, f, d, um, first) ==
    IF i > Len(b) THEN (IF first THEN BadMode ELSE [ok |-> TRUE, f |-> f, d |-> d])
    ELSE IF b[i] = 44 THEN (IF first THEN BadMode ELSE Clause(b, i + 1, f, d, um))
    ELSE IF b[i] \in {43, 45, 61} THEN
        LET c == IF i < Len(b) THEN b[i + 1] ELSE 0
            sh(m) == CASE c = 117 -> (m \div 64) % 8 [] c = 103 -> (m \div 8) % 8 [] OTHER -> m % 8
            ch == IF c \in {117, 103, 111}
                  THEN [f |-> Rep3(sh(f)) & mask, d |-> Rep3(sh(d)) & mask, i |-> i + 2]
                  ELSE Perms(b, i + 1, who, mask, 0, 0)
            nf == CASE b[i] = 43 -> f | ch.f
                    [] b[i] = 45 -> Clear(f, ch.f)
                    [] OTHER -> Clear(f, who) | ch.f
            nd == CASE b[i] = 43 -> d | ch.d
                    [] b[i] = 45 -> Clear(d, ch.d)
                    [] OTHER -> Clear(d, who) | ch.d
        IN Actions(b, ch.i, who, mask, nf, nd, um, FALSE)
    ELSE BadMode

Mode(b, um) ==
    IF b # <<>> /\ IsDigit(b[1]) THEN
        IF \E i \in 1..Len(b) : ~IsOctal(b[i]) THEN BadMode
        ELSE LET v == OctVal(b, 1, 0) IN
             IF v > 4095 THEN BadMode ELSE [ok |-> TRUE, f |-> v, d |-> v]
    ELSE Clause(b, 1, 0, 0, um)

---------------------------------------------------------------------------
(* Advancing *)
\* kind: "flag", "path", or anything else (which starts the expression)
Adv(P, kind, n) == [P EXCEPT !.i = @ + n, !.started = @ \/ kind \notin {"flag", "path"}]
Opt(P, n) == Res(Adv(P, "option", n), TrueE)
Flag(P, n) == Res(Adv(P, "flag", n), TrueE)
Test(P, n, e) == Res(Adv(P, "test", n), e)
Action(P, n, e) ==
    IF P.excluding THEN Bad(P, "action in -exclude")
    ELSE LET Q == Adv(P, "action", n) IN
         Res([Q EXCEPT !.implicit = @ /\ e.k \in {"limit", "prune", "quit"}], e)
Leaf(P, k) == [op |-> "leaf", k |-> k, id |-> P.i]

\* Skip and collect starting paths
RECURSIVE SkipPaths(_, _)
SkipPaths(E, P) ==
    IF P.err # "" \/ ~Has(E, P.i) THEN P
    ELSE LET s == Tok(E, P.i)
             b == Byt(E, P.i)
         IN IF s = "--" THEN SkipPaths(E, Adv(P, "flag", 1))
            ELSE IF b # <<>> /\ b[1] = 45 /\ s # "-" THEN P
            ELSE IF s \in {"(", "!"} THEN P
            ELSE IF P.started /\ s \in {")", ","} THEN P
            ELSE SkipPaths(E, [Adv(P, "path", 1) EXCEPT !.roots = Append(@, b)])

---------------------------------------------------------------------------
(* Primaries *)
FieldOf(c) == CASE c = 97 -> "a" [] c = 66 -> "B" [] c = 99 -> "c" [] c = 109 -> "m" [] OTHER -> ""
NodeTime(fs, n, f) == CASE f = "a" -> fs.nodes[n].at [] f = "B" -> fs.nodes[n].bt
                        [] f = "c" -> fs.nodes[n].ct [] f = "m" -> fs.nodes[n].mt

\* Argument of a unary primary, or a missing-value error
Unary(E, P) == Has(E, P.i + 1)

ArgStat(E, P) == Stat(E.fs, {}, E.fs.cwd, Byt(E, P.i + 1), IF P.cfg.follow = "P" THEN "N" ELSE "T")

ICmpTest(E, P, k) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET c == ICmp(Byt(E, P.i + 1)) IN
         IF c.ok /\ c.tail = <<>> THEN Test(P, 2, Leaf(P, k) @@ [cmp |-> c.cmp, v |-> c.v])
         ELSE Bad(P, "bad integer")

RefTime(E, P, field, t) == Test(P, 2, Leaf(P, "newer") @@ [f |-> field, ref |-> t])

Newer(E, P, field) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET r == ArgStat(E, P) IN
         IF r.err # "" THEN Bad(P, "stat")
         ELSE RefTime(E, P, field, E.fs.nodes[r.n].mt)
Since(E, P, field) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET d == ParseDate(Byt(E, P.i + 1), E.off) IN
         IF d.ok THEN RefTime(E, P, field, d.t) ELSE Bad(P, "bad date")
NewerXY(E, P) ==
    LET b == Byt(E, P.i) IN
    IF Len(b) # 8 THEN Bad(P, "bad -newerXY")
    ELSE IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET x == FieldOf(b[7])
             y == FieldOf(b[8])
         IN IF x = "" THEN Bad(P, "bad X")
            ELSE IF b[8] = 116 THEN Since(E, P, x)
            ELSE IF y = "" THEN Bad(P, "bad Y")
            ELSE LET r == ArgStat(E, P) IN
                 IF r.err # "" THEN Bad(P, "stat") ELSE RefTime(E, P, x, NodeTime(E.fs, r.n, y))

TimeTest(E, P, field, unit) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET c == ICmp(Byt(E, P.i + 1)) IN
         IF c.ok /\ c.tail = <<>>
         THEN Test(P, 2, Leaf(P, "time") @@ [f |-> field, unit |-> unit, cmp |-> c.cmp, v |-> c.v, ref |-> P.cfg.now])
         ELSE Bad(P, "bad integer")
\* Sum of N<unit> parts, in seconds
UnitSecs(c) == CASE c = 119 -> 604800 [] c = 100 -> 86400 [] c = 104 -> 3600 [] c = 109 -> 60 [] c = 115 -> 1 [] OTHER -> 0
RECURSIVE Parts(_, _, _)
Parts(v, tail, acc) ==
    \* v: the number before tail[1]; returns [ok, v]
    LET u == IF tail = <<>> THEN 0 ELSE UnitSecs(tail[1]) IN
    IF u = 0 \/ v[1] > 0 THEN [ok |-> FALSE, v |-> acc]
    ELSE LET s == acc + v[2] * u
             rest == Tail(tail)
         IN IF rest = <<>> THEN [ok |-> TRUE, v |-> s]
            ELSE LET n == PInt(rest, 1) IN
                 IF ~n.ok \/ n.neg THEN [ok |-> FALSE, v |-> s]
                 ELSE Parts(n.v, Drop(rest, n.next - 1), s)
TimeUnits(E, P, field) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET c == ICmp(Byt(E, P.i + 1)) IN
         IF ~c.ok THEN Bad(P, "bad integer")
         ELSE IF c.tail = <<>> THEN TimeTest(E, P, field, "d")
         ELSE LET p == Parts(c.v, c.tail, 0) IN
              IF ~p.ok THEN Bad(P, "bad time unit")
              ELSE Test(P, 2, Leaf(P, "time") @@ [f |-> field, unit |-> "s", cmp |-> c.cmp, v |-> W(p.v), ref |-> P.cfg.now])

SizeShift(c) == CASE c = 98 -> 9 [] c = 99 -> 0 [] c = 119 -> 1 [] c = 107 -> 10 [] c = 77 -> 20
                  [] c = 71 -> 30 [] c = 84 -> 40 [] c = 80 -> 50 [] OTHER -> -1
SizeTest(E, P) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET c == ICmp(Byt(E, P.i + 1))
             sh == IF c.tail = <<>> THEN 9 ELSE IF Len(c.tail) = 1 THEN SizeShift(c.tail[1]) ELSE -1
         IN IF ~c.ok \/ sh < 0 THEN Bad(P, "bad size")
            ELSE Test(P, 2, Leaf(P, "size") @@ [cmp |-> c.cmp, v |-> c.v, sh |-> sh])

TypeLetters == [c \in {98, 99, 100, 68, 112, 102, 108, 115, 119} |->
                  CASE c = 98 -> "b" [] c = 99 -> "c" [] c = 100 -> "d" [] c = 68 -> "D" [] c = 112 -> "p"
                    [] c = 102 -> "f" [] c = 108 -> "l" [] c = 115 -> "s" [] c = 119 -> "w"]
TypeTest(E, P, k) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET b == Byt(E, P.i + 1)
             ok == /\ Len(b) % 2 = 1
                   /\ \A i \in 1..Len(b) : IF i % 2 = 1 THEN b[i] \in DOMAIN TypeLetters ELSE b[i] = 44
         IN IF ~ok THEN Bad(P, "bad type")
            ELSE Test(P, 2, Leaf(P, k) @@ [ts |-> {TypeLetters[b[i]] : i \in {j \in 1..Len(b) : j % 2 = 1}}])

PermTest(E, P) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET b == Byt(E, P.i + 1)
             c == IF b = <<>> THEN "eq"
                  ELSE IF b[1] = 45 THEN "all" ELSE IF b[1] = 47 THEN "any"
                  ELSE IF b[1] = 43 /\ Len(b) > 1 /\ IsDigit(b[2]) THEN "any" ELSE "eq"
             m == Mode(IF c = "eq" THEN b ELSE Tail(b), E.umask)
         IN IF ~m.ok THEN Bad(P, "bad mode")
            ELSE Test(P, 2, Leaf(P, "perm") @@ [cmp |-> c, fm |-> m.f, dm |-> m.d])

OwnerTest(E, P, k, db) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET b == Byt(E, P.i + 1)
             m == {i \in 1..Len(db) : db[i].n = b}
         IN IF m # {} THEN Test(P, 2, Leaf(P, k) @@ [cmp |-> "eq", v |-> W(db[CHOOSE i \in m : TRUE].id)])
            ELSE IF LooksLikeICmp(b) THEN ICmpTest(E, P, k)
            ELSE Bad(P, "no such owner")

PatTest(E, P, k, fold) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE Test(P, 2, Leaf(P, k) @@ [pat |-> Byt(E, P.i + 1), fold |-> fold])

RegexTest(E, P, fold) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET r == RegexParse(Byt(E, P.i + 1), P.cfg.rtype) IN
         IF ~r.ok THEN Bad(P, "bad regex")
         ELSE Test(P, 2, Leaf(P, "regex") @@ [re |-> r.re, fold |-> fold])

DepthLimit(E, P, isMin) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET n == SmallInt(Byt(E, P.i + 1)) IN
         IF ~n.ok THEN Bad(P, "bad integer")
         ELSE IF isMin THEN Opt([P EXCEPT !.cfg.mind = n.v], 2) ELSE Opt([P EXCEPT !.cfg.maxd = n.v], 2)

\* The stream of an output file argument, or 0 if it cannot be opened
StreamOf(E, b) == LET m == {i \in 1..Len(E.files) : E.files[i].b = b} IN
                  IF m = {} THEN 0 ELSE E.files[CHOOSE i \in m : TRUE].k
Opened(r, k) == [r EXCEPT !.P.opened = @ \cup {k}]

FileAction(E, P, k) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET st == StreamOf(E, Byt(E, P.i + 1))
             r == Action(P, 2, Leaf(P, k) @@ [st |-> st])
         IN IF Failed(r) THEN r ELSE IF st = 0 THEN Bad(P, "cannot open") ELSE Opened(r, st)

PrintfAction(E, P, st, n, fi) ==
    LET f == FormatParse(Byt(E, fi))
        r == Action(P, n, Leaf(P, "printf") @@ [st |-> st, fmt |-> f.items])
    IN IF Failed(r) THEN r ELSE IF st = 0 THEN Bad(P, "cannot open")
       ELSE IF ~f.ok THEN Opened(Bad(P, "bad format"), st) ELSE Opened(r, st)

\* -exec: the index of the terminator, or 0
RECURSIVE ExecEnd(_, _, _, _)
ExecEnd(E, i, first, confirm) ==
    IF ~Has(E, i) THEN [i |-> 0, multi |-> FALSE]
    ELSE IF Tok(E, i) = ";" THEN [i |-> i, multi |-> FALSE]
    ELSE IF Tok(E, i) = "+" /\ i > first /\ Tok(E, i - 1) = "{}" /\ ~confirm THEN [i |-> i, multi |-> TRUE]
    ELSE ExecEnd(E, i + 1, first, confirm)
HasBraces(b) == \E j \in 1..(Len(b) - 1) : b[j] = 123 /\ b[j + 1] = 125
Exec(E, P, dir, confirm) ==
    LET x == ExecEnd(E, P.i + 1, P.i + 1, confirm)
        n == x.i - P.i - 1
        tmpl == [j \in 1..n |-> Byt(E, P.i + j)]
        e == Leaf(P, "exec") @@ [multi |-> x.multi, dir |-> dir, confirm |-> confirm,
                                 tmpl |-> IF x.multi THEN SubSeq(tmpl, 1, n - 1) ELSE tmpl,
                                 opt |-> Byt(E, P.i)]
    IN IF x.i = 0 THEN Bad(P, "unterminated -exec")
       ELSE IF n = 0 THEN Bad(P, "missing command")
       ELSE IF x.multi /\ \E j \in 1..(n - 1) : HasBraces(tmpl[j]) THEN Bad(P, "multiple {}")
       ELSE LET r == Action(P, n + 2, e) IN
            IF Failed(r) THEN r
            ELSE IF dir /\ E.badpath THEN Bad(P, "unsafe PATH")
            ELSE IF confirm THEN
                IF P.stdin THEN Bad(P, "stdin used twice") ELSE [r EXCEPT !.P.stdin = TRUE]
            ELSE r

Exit(E, P) ==
    LET n == IF Has(E, P.i + 1) THEN SmallInt(Byt(E, P.i + 1)) ELSE [ok |-> FALSE, v |-> 0] IN
    IF n.ok THEN Action(P, 2, Leaf(P, "exit") @@ [v |-> n.v])
    ELSE Action(P, 1, Leaf(P, "exit") @@ [v |-> 0])

Limit(E, P) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET n == PInt(Byt(E, P.i + 1), 1)
             r == Action(P, 2, Leaf(P, "limit") @@ [v |-> n.v])
         IN IF Failed(r) THEN r
            ELSE IF ~n.ok \/ n.neg \/ n.next # Len(Byt(E, P.i + 1)) + 1 \/ n.v = <<0, 0>> THEN Bad(P, "bad limit")
            ELSE [r EXCEPT !.P.limit = TRUE]

RegexType(E, P) ==
    IF ~Unary(E, P) THEN Bad(P, "missing value")
    ELSE LET s == Tok(E, P.i + 1) IN
         IF s \in {"posix-basic", "posix-minimal-basic", "ed", "sed"} THEN Opt([P EXCEPT !.cfg.rtype = "bre"], 2)
         ELSE IF s = "posix-extended" THEN Opt([P EXCEPT !.cfg.rtype = "ere"], 2)
         ELSE Bad(P, "bad regex type")

(* Single-letter flags.  c is the letter, arg the whole token (a group of
   flags such as -LEXO2 is one token).  Prefix flags take the rest of the
   token, or the next token. *)
FlagLetters == {"D", "E", "H", "L", "O", "P", "S", "X", "d", "f", "j", "s", "x"}
PrefixLetters == {"D", "O", "S", "j"}
StrChars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

RECURSIVE FirstOf(_, _, _)
FirstOf(s, c, i) == IF SubSeq(s, i, i) = c THEN i ELSE FirstOf(s, c, i + 1)

Strategy(P, s) == IF s \in {"bfs", "dfs", "ids", "eds"}
                  THEN [P EXCEPT !.cfg.strat = s] ELSE [P EXCEPT !.err = "bad strategy"]
StrNum(s) == s # "" /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
OptLevel(P, s) == IF s = "fast" \/ (StrNum(s) /\ Len(s) < 9) THEN P ELSE [P EXCEPT !.err = "bad level"]
Jobs(P, s) == IF StrNum(s) /\ Len(s) < 9 /\ \E i \in 1..Len(s) : SubSeq(s, i, i) # "0"
              THEN P ELSE [P EXCEPT !.err = "bad jobs"]

\* Returns [P, n]: the new state (position unchanged) and how many tokens are used
FlagLetter(E, P, c) ==
    LET arg == Tok(E, P.i)
        k == FirstOf(arg, c, 2)
        inl == k < Len(arg)
        val == IF inl THEN SubSeq(arg, k + 1, Len(arg)) ELSE IF Has(E, P.i + 1) THEN Tok(E, P.i + 1) ELSE ""
        n == IF inl THEN 1 ELSE 2
        missing == [P |-> [P EXCEPT !.err = "missing value"], n |-> 1]
    IN CASE c = "E" -> [P |-> [P EXCEPT !.cfg.rtype = "ere"], n |-> 1]
         [] c \in {"H", "L", "P"} -> [P |-> [P EXCEPT !.cfg.follow = c], n |-> 1]
         [] c = "X" -> [P |-> [P EXCEPT !.cfg.xsafe = TRUE], n |-> 1]
         [] c = "d" -> [P |-> [P EXCEPT !.cfg.post = TRUE], n |-> 1]
         [] c = "s" -> [P |-> [P EXCEPT !.cfg.sort = TRUE], n |-> 1]
         [] c = "x" -> [P |-> [P EXCEPT !.cfg.xdev = TRUE, !.started = TRUE], n |-> 1]
         [] c = "f" -> IF Has(E, P.i + 1)
                       THEN [P |-> [P EXCEPT !.roots = Append(@, Byt(E, P.i + 1))], n |-> 2]
                       ELSE missing
         [] c = "S" -> IF ~inl /\ ~Has(E, P.i + 1) THEN missing ELSE [P |-> Strategy(P, val), n |-> n]
         [] c = "O" -> IF ~inl THEN missing ELSE [P |-> OptLevel(P, val), n |-> 1]
         [] c = "j" -> IF ~inl THEN missing ELSE [P |-> Jobs(P, val), n |-> 1]
         [] c = "D" -> IF ~inl /\ ~Has(E, P.i + 1) THEN missing ELSE [P |-> P, n |-> n]

RECURSIVE GroupOk(_, _, _, _)
GroupOk(s, i, upper, needs) ==
    IF i > Len(s) THEN upper
    ELSE IF needs THEN FALSE
    ELSE LET c == SubSeq(s, i, i)
             u == upper \/ c \in {"D", "E", "H", "L", "O", "P", "S", "X"}
         IN IF c \notin FlagLetters THEN FALSE
            ELSE IF c \in PrefixLetters THEN u
            ELSE GroupOk(s, i + 1, u, c = "f")
IsFlagGroup(s) == Len(s) >= 2 /\ SubSeq(s, 1, 1) = "-" /\ GroupOk(s, 2, FALSE, FALSE)

RECURSIVE FlagGroup(_, _, _, _)
FlagGroup(E, P, i, used) ==
    LET s == Tok(E, P.i) IN
    IF i > Len(s) THEN Flag(P, used)
    ELSE LET c == SubSeq(s, i, i)
             r == FlagLetter(E, P, c)
         IN IF r.P.err # "" THEN Bad(P, r.P.err)
            ELSE IF c \in PrefixLetters THEN Flag(r.P, Max2(used, r.n))
            ELSE FlagGroup(E, r.P, i + 1, Max2(used, r.n))
OneFlag(E, P, c) == LET r == FlagLetter(E, P, c) IN
                    IF r.P.err # "" THEN Bad(P, r.P.err) ELSE Flag(r.P, r.n)

Prefixed(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Primary(E, P) ==
    LET s == Tok(E, P.i)
        b == Byt(E, P.i)
    IN IF b = <<>> \/ b[1] # 45 THEN Bad(P, "expected a predicate")
    ELSE CASE s = "-true" -> Test(P, 1, Leaf(P, "true"))
      [] s = "-false" -> Test(P, 1, Leaf(P, "false"))
      [] s \in {"-Bmin", "-amin", "-cmin", "-mmin"} -> TimeTest(E, P, SubSeq(s, 2, 2), "m")
      [] s \in {"-Btime", "-atime", "-ctime", "-mtime"} -> TimeUnits(E, P, SubSeq(s, 2, 2))
      [] s \in {"-Bnewer", "-anewer", "-cnewer", "-mnewer"} -> Newer(E, P, SubSeq(s, 2, 2))
      [] s = "-newer" -> Newer(E, P, "m")
      [] s \in {"-Bsince", "-asince", "-csince", "-msince"} -> Since(E, P, SubSeq(s, 2, 2))
      [] s = "-since" -> Since(E, P, "m")
      [] Prefixed(s, "-newer") -> NewerXY(E, P)
      [] s = "-used" -> ICmpTest(E, P, "used")
      [] s = "-daystart" -> Opt([P EXCEPT !.cfg.now = DayEnd(@, E.off)], 1)
      [] s \in {"-delete", "-rm"} -> LET r == Action(P, 1, Leaf(P, "delete")) IN
                                     IF Failed(r) THEN r ELSE [r EXCEPT !.P.cfg.post = TRUE]
      [] s = "-depth" -> IF Has(E, P.i + 1) /\ LooksLikeICmp(Byt(E, P.i + 1)) THEN ICmpTest(E, P, "depth")
                         ELSE Opt([P EXCEPT !.cfg.post = TRUE], 1)
      [] s = "-empty" -> Test(P, 1, Leaf(P, "empty"))
      [] s = "-acl" -> Test(P, 1, Leaf(P, "acl"))
      [] s = "-capable" -> Test(P, 1, Leaf(P, "capable"))
      [] s = "-xattr" -> Test(P, 1, Leaf(P, "xattr"))
      [] s = "-xattrname" -> IF ~Unary(E, P) THEN Bad(P, "missing value")
                             ELSE Test(P, 2, Leaf(P, "xattrname") @@ [b |-> Byt(E, P.i + 1)])
      [] s = "-exec" -> Exec(E, P, FALSE, FALSE)
      [] s = "-execdir" -> Exec(E, P, TRUE, FALSE)
      [] s = "-ok" -> Exec(E, P, FALSE, TRUE)
      [] s = "-okdir" -> Exec(E, P, TRUE, TRUE)
      [] s \in {"-executable", "-readable", "-writable"} ->
             Test(P, 1, Leaf(P, "access") @@ [m |-> CASE s = "-executable" -> "x" [] s = "-readable" -> "r" [] OTHER -> "w"])
      [] s = "-exit" -> Exit(E, P)
      [] s = "-files0-from" -> IF Unary(E, P) THEN Opt([P EXCEPT !.files0 = P.i + 1], 2) ELSE Bad(P, "missing value")
      [] s = "-fls" -> FileAction(E, P, "ls")
      [] s = "-fprint" -> FileAction(E, P, "print")
      [] s = "-fprint0" -> FileAction(E, P, "print0")
      [] s = "-fprintf" -> IF Has(E, P.i + 2) THEN PrintfAction(E, P, StreamOf(E, Byt(E, P.i + 1)), 3, P.i + 2)
                           ELSE Bad(P, "missing value")
      [] s = "-follow" -> Opt([P EXCEPT !.cfg.follow = "L"], 1)
      [] s \in {"-gid", "-group"} -> OwnerTest(E, P, "gid", E.groups)
      [] s \in {"-uid", "-user"} -> OwnerTest(E, P, "uid", E.users)
      [] s = "-hidden" -> Test(P, 1, Leaf(P, "hidden"))
      [] s = "-ignore_readdir_race" -> Opt([P EXCEPT !.cfg.races = TRUE], 1)
      [] s = "-noignore_readdir_race" -> Opt([P EXCEPT !.cfg.races = FALSE], 1)
      [] s \in {"-ilname", "-lname"} -> PatTest(E, P, "lname", s = "-ilname")
      [] s \in {"-iname", "-name"} -> PatTest(E, P, "name", s = "-iname")
      [] s \in {"-ipath", "-path", "-iwholename", "-wholename"} -> PatTest(E, P, "path", s \in {"-ipath", "-iwholename"})
      [] s \in {"-iregex", "-regex"} -> RegexTest(E, P, s = "-iregex")
      [] s = "-inum" -> ICmpTest(E, P, "inum")
      [] s = "-limit" -> Limit(E, P)
      [] s = "-links" -> ICmpTest(E, P, "links")
      [] s = "-ls" -> Action(P, 1, Leaf(P, "ls") @@ [st |-> 1])
      [] s = "-maxdepth" -> DepthLimit(E, P, FALSE)
      [] s = "-mindepth" -> DepthLimit(E, P, TRUE)
      [] s = "-mount" -> Opt([P EXCEPT !.cfg.mount = TRUE], 1)
      [] s = "-xdev" -> Opt([P EXCEPT !.cfg.xdev = TRUE], 1)
      [] s \in {"-noleaf", "-nowarn", "-warn"} -> Opt(P, 1)
      [] s = "-nocolor" -> Opt([P EXCEPT !.cfg.color = "never"], 1)
      [] s = "-color" -> IF ColorTable(E.lsc, E.bfsc).ok THEN Opt([P EXCEPT !.cfg.color = "always"], 1)
                         ELSE Bad(P, "bad $LS_COLORS")
      [] s = "-noerror" -> Opt([P EXCEPT !.cfg.noerr = TRUE], 1)
      [] s = "-nogroup" -> Test(P, 1, Leaf(P, "nogroup"))
      [] s = "-nouser" -> Test(P, 1, Leaf(P, "nouser"))
      [] s = "-nohidden" -> Opt([P EXCEPT !.excl = Append(@, Leaf(P, "hidden"))], 1)
      [] s = "-perm" -> PermTest(E, P)
      [] s = "-print" -> Action(P, 1, Leaf(P, "print") @@ [st |-> 1])
      [] s = "-print0" -> Action(P, 1, Leaf(P, "print0") @@ [st |-> 1])
      [] s = "-printx" -> Action(P, 1, Leaf(P, "printx") @@ [st |-> 1])
      [] s = "-printf" -> IF Unary(E, P) THEN PrintfAction(E, P, 1, 2, P.i + 1) ELSE Bad(P, "missing value")
      [] s = "-prune" -> Action(P, 1, Leaf(P, "prune"))
      [] s = "-quit" -> Action(P, 1, Leaf(P, "quit"))
      [] s = "-regextype" -> RegexType(E, P)
      [] s = "-samefile" -> IF ~Unary(E, P) THEN Bad(P, "missing value")
                            ELSE LET r == ArgStat(E, P) IN
                                 IF r.err # "" THEN Bad(P, "stat")
                                 ELSE Test(P, 2, Leaf(P, "samefile") @@ [dev |-> E.fs.nodes[r.n].dev, ino |-> E.fs.nodes[r.n].ino])
      [] s = "-size" -> SizeTest(E, P)
      [] s = "-sparse" -> Test(P, 1, Leaf(P, "sparse"))
      [] s = "-type" -> TypeTest(E, P, "type")
      [] s = "-xtype" -> TypeTest(E, P, "xtype")
      [] s = "-unique" -> Opt([P EXCEPT !.cfg.unique = TRUE], 1)
      [] s \in {"-E", "-H", "-L", "-P", "-X", "-d", "-f", "-s", "-x"} -> OneFlag(E, P, SubSeq(s, 2, 2))
      [] Prefixed(s, "-D") -> OneFlag(E, P, "D")
      [] Prefixed(s, "-O") -> OneFlag(E, P, "O")
      [] Prefixed(s, "-S") -> OneFlag(E, P, "S")
      [] Prefixed(s, "-j") -> OneFlag(E, P, "j")
      [] IsFlagGroup(s) -> FlagGroup(E, P, 2, 1)
      [] OTHER -> Bad(P, "unknown argument")

---------------------------------------------------------------------------
(* The grammar *)
Bin(op, l, r) == [op |-> op, l |-> l, r |-> r]

RECURSIVE Factor(_, _), Term(_, _), TermRest(_, _, _), ClauseE(_, _), ClauseRest(_, _, _), Expr(_, _), ExprRest(_, _, _)
Factor(E, P0) ==
    LET P == SkipPaths(E, P0)
        s == Tok(E, P.i)
    IN IF ~Has(E, P.i) THEN Bad(P, "premature end")
       ELSE IF s = "(" THEN
           LET r == Expr(E, Adv(P, "op", 1)) IN
           IF Failed(r) THEN r
           ELSE LET Q == SkipPaths(E, r.P) IN
                IF Has(E, Q.i) /\ Tok(E, Q.i) = ")" THEN Res(Adv(Q, "op", 1), r.e) ELSE Bad(Q, "expected )")
       ELSE IF s = "-exclude" THEN
           IF P.excluding THEN Bad(P, "nested -exclude")
           ELSE LET r == Factor(E, [Adv(P, "op", 1) EXCEPT !.excluding = TRUE]) IN
                IF Failed(r) THEN r
                ELSE Res([r.P EXCEPT !.excluding = FALSE, !.excl = Append(@, r.e)], TrueE)
       ELSE IF s \in {"!", "-not"} THEN
           LET r == Factor(E, Adv(P, "op", 1)) IN
           IF Failed(r) THEN r ELSE Res(r.P, [op |-> "not", l |-> r.e])
       ELSE Primary(E, P)
TermRest(E, P0, l) ==
    LET P == SkipPaths(E, P0)
        s == Tok(E, P.i)
    IN IF ~Has(E, P.i) \/ s \in {"-o", "-or", ",", ")"} THEN Res(P, l)
       ELSE LET r == Factor(E, IF s \in {"-a", "-and"} THEN Adv(P, "op", 1) ELSE P) IN
            IF Failed(r) THEN r ELSE TermRest(E, r.P, Bin("and", l, r.e))
Term(E, P) == LET r == Factor(E, P) IN IF Failed(r) THEN r ELSE TermRest(E, r.P, r.e)
ClauseRest(E, P0, l) ==
    LET P == SkipPaths(E, P0) IN
    IF ~Has(E, P.i) \/ Tok(E, P.i) \notin {"-o", "-or"} THEN Res(P, l)
    ELSE LET r == Term(E, Adv(P, "op", 1)) IN
         IF Failed(r) THEN r ELSE ClauseRest(E, r.P, Bin("or", l, r.e))
ClauseE(E, P) == LET r == Term(E, P) IN IF Failed(r) THEN r ELSE ClauseRest(E, r.P, r.e)
ExprRest(E, P0, l) ==
    LET P == SkipPaths(E, P0) IN
    IF ~Has(E, P.i) \/ Tok(E, P.i) # "," THEN Res(P, l)
    ELSE LET r == ClauseE(E, Adv(P, "op", 1)) IN
         IF Failed(r) THEN r ELSE ExprRest(E, r.P, Bin("comma", l, r.e))
Expr(E, P) == LET r == ClauseE(E, P) IN IF Failed(r) THEN r ELSE ExprRest(E, r.P, r.e)

\* Split NUL-separated names
RECURSIVE Split0(_, _)
Split0(c, i) ==
    IF i > Len(c) THEN <<>>
    ELSE LET j == IndexFrom(c, 0, i) IN
         IF j = 0 THEN << Drop(c, i - 1) >> ELSE << SubSeq(c, i, j - 1) >> \o Split0(c, j + 1)

Files0(E, P) ==
    \* P with the roots read from the last -files0-from
    LET b == Byt(E, P.files0)
        m == {i \in 1..Len(E.f0) : E.f0[i].b = b}
    IN IF P.roots # <<>> THEN [P EXCEPT !.err = "-files0-from with paths"]
       ELSE IF b = <<45>> THEN
           IF P.stdin THEN [P EXCEPT !.err = "stdin used twice"]
           ELSE [P EXCEPT !.roots = Split0(E.stdin, 1), !.stdin = TRUE]
       ELSE IF m = {} THEN [P EXCEPT !.err = "cannot open"]
       ELSE [P EXCEPT !.roots = Split0(E.f0[CHOOSE i \in m : TRUE].c, 1)]

(* The meaning of a command line: [err, cfg, roots, expr, excl, opened] *)
Parse(E) ==
    LET P0 == SkipPaths(E, InitP(E))
        r0 == IF Has(E, P0.i) THEN Expr(E, P0) ELSE Res(P0, TrueE)
        r1 == IF Failed(r0) THEN r0 ELSE IF Has(E, r0.P.i) THEN Bad(r0.P, "unexpected argument") ELSE r0
        P2 == IF r1.P.err # "" THEN r1.P
              ELSE IF r1.P.files0 # 0 THEN Files0(E, r1.P)
              ELSE IF r1.P.roots = <<>> THEN [r1.P EXCEPT !.roots = <<Dot>>] ELSE r1.P
        P3 == IF P2.err = "" /\ P2.implicit /\ P2.limit THEN [P2 EXCEPT !.err = "-limit needs an action"] ELSE P2
        \* Colours for standard output, if any
        use == P3.cfg.color = "always" \/ (P3.cfg.color = "auto" /\ E.tty /\ E.noc = <<>>)
        T == IF use THEN ColorTable(E.lsc, E.bfsc) ELSE [ok |-> FALSE]
    IN [err |-> P3.err, cfg |-> P3.cfg @@ [cols |-> T], roots |-> P3.roots, excl |-> P3.excl, opened |-> P3.opened,
        expr |-> IF P3.implicit THEN Bin("and", r1.e, PrintE) ELSE r1.e]
=============================================================================
