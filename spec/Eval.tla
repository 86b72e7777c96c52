-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Evaluation of an expression on one visited file.                         *)
(*                                                                         *)
(* E : the environment of the command (see Cmdline)                         *)
(* C : its configuration (cmd.cfg)                                          *)
(* V : the visited file                                                     *)
(*   [p, noff, dep, root, at, rel, t, fol]: path, offset of the name, depth,*)
(*   starting path, directory and relative name through which it is         *)
(*   reached, type as seen by the walk, and stat mode ("N" or "T")          *)
(* S : the effects so far                                                   *)
(*   [outs, errs, ret, act, quit, cnt, G, pend, log, inp, seen, uw, gw]     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE Bitwise
LOCAL INSTANCE TLC
LOCAL INSTANCE Bytes
LOCAL INSTANCE FS
LOCAL INSTANCE Time
LOCAL INSTANCE Glob
LOCAL INSTANCE Regex
LOCAL INSTANCE Printf
LOCAL INSTANCE Colors

InitS(E) ==
    [outs |-> [i \in 1..E.ns |-> <<>>], errs |-> {}, ret |-> 0, act |-> "C", quit |-> FALSE,
     cnt |-> <<>>, G |-> {}, pend |-> <<>>, log |-> <<>>, inp |-> E.stdin, seen |-> {},
     uw |-> 8, gw |-> 8, failed |-> {}, spurious |-> FALSE]

R(r, S) == [r |-> r, S |-> S]

(* Errors.  Every error message starts with the path; it makes the exit status
   a failure unless errors are suppressed. *)
Error(C, V, S) == IF C.noerr THEN S ELSE [S EXCEPT !.errs = @ \cup {V.p}, !.ret = 1]
Report(C, V, S, e) == IF C.races /\ Missing(e) /\ V.dep > 0 THEN S ELSE Error(C, V, S)

Lookup(db, id) == LET m == {i \in 1..Len(db) : db[i].id = id} IN
                  IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j

\* Metadata of the visited file, subject to injected failures
VStat(E, S, V, mode) ==
    LET m == {i \in 1..Len(E.fst) : E.fst[i].p = V.p} IN
    IF m # {} THEN Err(E.fst[CHOOSE i \in m : TRUE].e)
    ELSE Stat(E.fs, S.G, V.at, V.rel, mode)

\* The type of the visited file under another follow mode
VType(E, S, V, mode) ==
    LET known == CASE mode = "N" -> V.t = "l" \/ V.fol = "N"
                   [] mode = "T" -> V.t # "l" \/ V.fol = "T"
                   [] mode = "F" -> V.t # "l"
    IN IF known THEN [err |-> "", t |-> V.t]
       ELSE IF mode = "F" /\ V.fol = "T" THEN [err |-> "ENOENT", t |-> "?"]
       ELSE LET r == VStat(E, S, V, mode) IN
            IF r.err # "" THEN [err |-> r.err, t |-> "?"] ELSE [err |-> "", t |-> E.fs.nodes[r.n].t]

Cmp(e, a) == LET c == WCmp(a, e.v) IN
             CASE e.cmp = "eq" -> c = 0 [] e.cmp = "lt" -> c < 0 [] e.cmp = "gt" -> c > 0
\* compare a possibly negative small integer
CmpI(e, n) == IF n < 0 THEN e.cmp = "lt" ELSE Cmp(e, W(n))

NTime(nd, f) == CASE f = "a" -> nd.at [] f = "B" -> nd.bt [] f = "c" -> nd.ct [] f = "m" -> nd.mt

VName(V) == Drop(V.p, V.noff)

---------------------------------------------------------------------------
(* Output *)
Put(S, k, b) == [S EXCEPT !.outs[k] = @ \o b]

XChars == {32, 9, 10, 92, 36, 39, 34, 96}
RECURSIVE XEscape(_)
XEscape(p) == IF p = <<>> THEN <<>>
              ELSE (IF p[1] \in XChars THEN <<92, p[1]>> ELSE <<p[1]>>) \o XEscape(Tail(p))

TypeChar(t) == CASE t = "f" -> 45 [] t = "d" -> 100 [] t = "l" -> 108 [] t = "p" -> 112
                 [] t = "s" -> 115 [] t = "c" -> 99 [] t = "b" -> 98 [] OTHER -> 63
Bit(m, k) == (m \div k) % 2 = 1
X3(m, x, sp, c) == \* execute position: x bit, special bit, letter
    IF Bit(m, sp) THEN (IF Bit(m, x) THEN c ELSE c - 32) ELSE IF Bit(m, x) THEN 120 ELSE 45
ModeStr(nd) ==
    LET m == nd.mode IN
    << TypeChar(nd.t),
       IF Bit(m, 256) THEN 114 ELSE 45, IF Bit(m, 128) THEN 119 ELSE 45, X3(m, 64, 2048, 115),
       IF Bit(m, 32) THEN 114 ELSE 45, IF Bit(m, 16) THEN 119 ELSE 45, X3(m, 8, 1024, 115),
       IF Bit(m, 4) THEN 114 ELSE 45, IF Bit(m, 2) THEN 119 ELSE 45, X3(m, 1, 512, 116) >>

TLetter(t) == CASE t = "b" -> 98 [] t = "c" -> 99 [] t = "d" -> 100 [] t = "p" -> 112 [] t = "l" -> 108
                [] t = "f" -> 102 [] t = "s" -> 115 [] OTHER -> 85

HalfUp(a) == WCeilShift(a, 1)

(* Colours.  T is the table of the stream, with T.ok = FALSE for none. *)
Table(C, k) == IF k = 1 THEN C.cols ELSE [ok |-> FALSE]

ErrColor(T) == IF T.t["mi"].on THEN T.t["mi"] ELSE T.t["or"]
First(cs, d) == \* the first applicable colour
    LET RECURSIVE f(_)
        f(i) == IF i > Len(cs) THEN d ELSE IF cs[i][1].on /\ cs[i][2] THEN cs[i][1] ELSE f(i + 1)
    IN f(1)
\* The colour of a file with inode nd (known unless err) of type t called name
NodeColor(T, t, err, nd, cap, name, broken) ==
    LET c(k) == T.t[k]
        x == ExtColor(T, name)
        need == IF t = "f" THEN c("su").on \/ c("sg").on \/ c("ex").on \/ c("mh").on
                ELSE t = "d" /\ (c("tw").on \/ c("ow").on \/ c("st").on)
        r == CASE t = "f" -> First(<< <<c("su"), ~err /\ Bit(nd.mode, 2048)>>, <<c("sg"), ~err /\ Bit(nd.mode, 1024)>>,
                                      <<c("ca"), cap>>,
                                      <<c("ex"), ~err /\ (nd.mode & 73) # 0>>, <<c("mh"), ~err /\ nd.nlink > 1>> >>,
                                   IF x.on THEN x ELSE c("fi"))
               [] t = "d" -> First(<< <<c("tw"), ~err /\ (nd.mode & 514) = 514>>, <<c("ow"), ~err /\ Bit(nd.mode, 2)>>,
                                      <<c("st"), ~err /\ Bit(nd.mode, 512)>> >>, c("di"))
               [] t = "l" -> IF c("or").on /\ broken THEN c("or") ELSE c("ln")
               [] t = "p" -> c("pi") [] t = "s" -> c("so") [] t = "b" -> c("bd") [] t = "c" -> c("cd")
               [] OTHER -> None
    IN IF need /\ err THEN ErrColor(T)
       ELSE IF r.on /\ r.b = <<>> THEN c("no") ELSE r

\* Whether the colour of a directory is just the colour of directories
PlainDir(T, nd) == LET c(k) == T.t[k] IN
    ~((c("tw").on /\ (nd.mode & 514) = 514) \/ (c("ow").on /\ Bit(nd.mode, 2)) \/ (c("st").on /\ Bit(nd.mode, 512)))

\* The colour of the visited file itself, under a follow mode
VColor(E, S, T, V, mode, name) ==
    LET ty == VType(E, S, V, mode)
        st == VStat(E, S, V, mode)
        broken == V.fol # "N" \/ Walk(E.fs, S.G, V.at, V.rel, TRUE).err # ""
    IN IF ty.err # "" THEN ErrColor(T)
       ELSE NodeColor(T, ty.t, st.err # "", E.fs.nodes[Max2(1, st.n)], V.t # "l" /\ st.err = "" /\ E.fs.nodes[st.n].cap, name, broken)

\* Shorten a path: without trailing slashes, or without its last component
Retreat(p) == IF p # <<>> /\ Last(p) = 47 THEN StripSlashes(p) ELSE Take(p, LastIndex(p, 47))
RECURSIVE ValidPrefix(_, _, _, _)
ValidPrefix(E, S, dir, p) == \* the longest prefix of p that exists, and its inode
    IF p = <<>> \/ StripSlashes(p) = <<>> THEN [p |-> p, n |-> 0]
    ELSE LET w == Walk(E.fs, S.G, dir, p, TRUE) IN
         IF w.err = "" THEN [p |-> p, n |-> w.n] ELSE ValidPrefix(E, S, dir, Retreat(p))

\* A path in three parts: directories, name, and what does not exist
Parts(T, p, noff, nc, plain, valid) ==
    LET merge == plain \/ (~nc.on /\ ~T.t["di"].on)
        n == IF merge THEN valid ELSE noff
    IN Colored(T, T.t["di"], Take(p, n)) \o Colored(T, nc, SubSeq(p, n + 1, valid))
       \o Colored(T, ErrColor(T), Drop(p, valid))

VMode(T, V) == IF T.target /\ V.t = "l" THEN "T" ELSE V.fol
\* The path p of the visited file, whose name starts after noff
ColPath(E, S, T, V, p, noff) ==
    LET mode == VMode(T, V)
        ty == VType(E, S, V, mode)
        st == VStat(E, S, V, mode)
    IN IF ty.err # "" THEN Parts(T, p, noff, None, FALSE, noff)
       ELSE Parts(T, p, noff, VColor(E, S, T, V, mode, Drop(p, noff)),
                  ty.t = "d" /\ st.err = "" /\ PlainDir(T, E.fs.nodes[st.n]), Len(p))
ColName(E, S, T, V) == Colored(T, VColor(E, S, T, V, VMode(T, V), VName(V)), VName(V))

\* The target of a symbolic link
ColTarget(E, S, T, V, tgt) ==
    LET ty == VType(E, S, V, "F")
        dir == IF V.dep > 0 \/ V.noff = 0 THEN OK(V.at) ELSE Walk(E.fs, S.G, V.at, Take(V.rel, V.noff), TRUE)
        whole == Stat(E.fs, S.G, V.at, V.rel, "F")
        v == ValidPrefix(E, S, dir.n, Retreat(tgt))
        noff(q) == BaseOff(q)
        show(n, q) == LET nd == E.fs.nodes[n]
                          o == noff(q)
                      IN Parts(T, tgt, o, NodeColor(T, nd.t, FALSE, nd, FALSE, Drop(q, o), FALSE),
                               nd.t = "d" /\ PlainDir(T, nd), Len(q))
    IN IF ty.err = "" THEN show(whole.n, tgt)
       ELSE IF v.p = <<>> THEN Parts(T, tgt, 0, None, FALSE, 0)
       ELSE IF Last(v.p) = 47 THEN Parts(T, tgt, Len(v.p), None, FALSE, Len(v.p))
       ELSE show(v.n, v.p)

StrictRoot(V) == \* the part of the path after the starting path
    LET n == Len(V.root)
        r == Drop(V.p, n)
    IN IF r # <<>> /\ r[1] = 47 THEN Tail(r) ELSE r

\* One directive: [e, b], e the error or ""
Directive(E, T, S, V, it) ==
    LET r == VStat(E, S, V, V.fol)
        nd == E.fs.nodes[r.n]
        good(b) == [e |-> "", b |-> FmtStr(it, b)]
        needStat(b(_)) == IF r.err # "" THEN [e |-> r.err, b |-> <<>>] ELSE good(b(nd))
        c == it.c
        col == T.ok /\ it.fl = {} /\ it.w = 0 /\ it.p < 0     \* only a plain directive is coloured
        same(b) == [e |-> "", b |-> b]
        dirs(b) == same(IF T.t["di"].on THEN Colored(T, T.t["di"], b) ELSE TtyText(b))
    IN CASE c = 97 -> needStat(LAMBDA x : CTime(x.at, E.off))
         [] c = 99 -> needStat(LAMBDA x : CTime(x.ct, E.off))
         [] c = 116 -> needStat(LAMBDA x : CTime(x.mt, E.off))
         [] c = 119 -> needStat(LAMBDA x : CTime(x.bt, E.off))
         [] c = 98 -> needStat(LAMBDA x : WDec(x.blk))
         [] c = 107 -> needStat(LAMBDA x : WDec(HalfUp(x.blk)))
         [] c = 100 -> [e |-> "", b |-> FmtNum(it, V.dep, FALSE)]
         [] c = 68 -> needStat(LAMBDA x : WDec(x.devw))
         [] c = 102 -> IF col THEN same(ColName(E, S, T, V)) ELSE good(VName(V))
         [] c = 103 -> needStat(LAMBDA x : LET i == Lookup(E.groups, x.gid) IN IF i = 0 THEN Dec(x.gid) ELSE E.groups[i].n)
         [] c = 71 -> needStat(LAMBDA x : Dec(x.gid))
         [] c = 117 -> needStat(LAMBDA x : LET i == Lookup(E.users, x.uid) IN IF i = 0 THEN Dec(x.uid) ELSE E.users[i].n)
         [] c = 85 -> needStat(LAMBDA x : Dec(x.uid))
         [] c = 104 -> LET d == IF V.noff = 0 THEN (IF V.p[1] = 47 THEN <<47>> ELSE Dot)
                                ELSE IF V.noff = 1 THEN Take(V.p, 1) ELSE Take(V.p, V.noff - 1)
                       IN IF col THEN dirs(d) ELSE good(d)
         [] c = 72 -> IF ~col THEN good(V.root)
                      ELSE IF V.dep = 0 THEN same(ColPath(E, S, T, V, V.p, V.noff)) ELSE dirs(V.root)
         [] c = 105 -> needStat(LAMBDA x : WDec(x.ino))
         [] c = 108 -> IF V.t # "l" THEN good(<<>>)
                       ELSE LET l == Walk(E.fs, S.G, V.at, V.rel, FALSE) IN
                            IF l.err # "" THEN [e |-> l.err, b |-> <<>>]
                            ELSE IF col THEN same(ColTarget(E, S, T, V, E.fs.nodes[l.n].tgt))
                            ELSE good(E.fs.nodes[l.n].tgt)
         [] c = 109 -> IF r.err # "" THEN [e |-> r.err, b |-> <<>>] ELSE [e |-> "", b |-> FmtNum(it, nd.mode, TRUE)]
         [] c = 77 -> needStat(LAMBDA x : ModeStr(x))
         [] c = 110 -> needStat(LAMBDA x : Dec(x.nlink))
         [] c = 112 -> IF col THEN same(ColPath(E, S, T, V, V.p, V.noff)) ELSE good(V.p)
         [] c = 80 -> IF ~col THEN good(StrictRoot(V))
                      ELSE IF V.dep = 0 THEN same(<<>>)
                      ELSE LET p == StrictRoot(V) IN same(ColPath(E, S, T, V, p, V.noff - (Len(V.p) - Len(p))))
         [] c = 115 -> needStat(LAMBDA x : WDec(x.size))
         [] c = 121 -> good(<<TLetter(V.t)>>)
         [] c = 89 -> LET y == VType(E, S, V, "F") IN
                      IF y.err = "" THEN good(<<TLetter(y.t)>>)
                      ELSE IF y.err = "ELOOP" THEN good(<<76>>)
                      ELSE IF Missing(y.err) THEN good(<<78>>)
                      ELSE [e |-> y.err, b |-> FmtStr(it, <<63>>)]
         [] c \in {65, 66, 67, 84, 87} ->
              LET f == CASE c = 65 -> "a" [] c = 67 -> "c" [] c = 84 -> "m" [] OTHER -> "B"
                  sp == SubSeq(Printable, it.t - 31, it.t - 31)
              IN needStat(LAMBDA x : StrFTime(sp, NTime(x, f), E.off, E.tz))

\* The text of a whole format and whether everything succeeded
RECURSIVE Render(_, _, _, _, _, _, _, _)
Render(E, T, S, V, items, i, acc, e) ==
    IF i > Len(items) THEN [e |-> e, b |-> acc]
    ELSE IF items[i].k = "lit" THEN Render(E, T, S, V, items, i + 1, acc \o items[i].b, e)
    ELSE LET d == Directive(E, T, S, V, items[i]) IN
         Render(E, T, S, V, items, i + 1, acc \o d.b, IF d.e # "" THEN d.e ELSE e)

LPad(b, n) == Pad(b, n, FALSE)
RPad(b, n) == Pad(b, n, TRUE)

Ls(E, C, S, V, k) ==
    LET r == VStat(E, S, V, V.fol) IN
    IF r.err # "" THEN Report(C, V, S, r.err)
    ELSE LET nd == E.fs.nodes[r.n]
             ui == Lookup(E.users, nd.uid)
             gi == Lookup(E.groups, nd.gid)
             un == IF ui = 0 THEN Dec(nd.uid) ELSE E.users[ui].n
             gn == IF gi = 0 THEN Dec(nd.gid) ELSE E.groups[gi].n
             uw == Max2(S.uw, Len(un))
             gw == Max2(S.gw, Len(gn))
             lnk == Walk(E.fs, S.G, V.at, V.rel, FALSE)
             T == Table(C, k)
             no == T.ok /\ T.t["no"].on
             tgt == E.fs.nodes[lnk.n].tgt
             line == (IF no THEN T.t["lc"].b \o T.t["no"].b \o T.t["rc"].b ELSE <<>>)
                     \o LPad(WDec(nd.ino), 9) \o <<32>> \o LPad(WDec(HalfUp(nd.blk)), 6) \o <<32>>
                     \o ModeStr(nd) \o <<IF V.t # "l" /\ nd.acl THEN 43 ELSE 32, 32>> \o LPad(Dec(nd.nlink), 2) \o <<32>>
                     \o RPad(un, uw) \o <<32>> \o RPad(gn, gw) \o <<32>>
                     \o LPad(WDec(nd.size), 8) \o <<32>> \o LsTime(nd.mt, E.now, E.off)
                     \o (IF no THEN T.end ELSE <<>>) \o <<32>>
                     \o (IF T.ok THEN ColPath(E, S, T, V, V.p, V.noff) ELSE V.p)
                     \o (IF V.t = "l" /\ lnk.err = "" THEN B(" -> ") \o (IF T.ok THEN ColTarget(E, S, T, V, tgt) ELSE tgt) ELSE <<>>)
                     \o <<10>>
         IN Put([S EXCEPT !.uw = uw, !.gw = gw], k, line)

---------------------------------------------------------------------------
(* Deletion *)
Delete(E, C, S, V) ==
    LET ty == VType(E, S, V, "N")
        q == StripSlashes(V.rel)
        o == LastIndex(q, 47)
        base == Drop(q, o)
        dir == IF o = 0 THEN OK(V.at) ELSE Walk(E.fs, S.G, V.at, Take(q, o), TRUE)
        k == IF dir.err = "" /\ E.fs.nodes[dir.n].t = "d" THEN Child(E.fs, S.G, dir.n, base) ELSE 0
        isDir == k # 0 /\ E.fs.nodes[k].t = "d"
        slash == Len(q) < Len(V.rel)
        e == IF ty.err # "" THEN ty.err
             ELSE IF dir.err # "" THEN dir.err
             ELSE IF base \in {Dot, DotDot} THEN "EINVAL"
             ELSE IF ~CanExec(E.fs, dir.n) THEN "EACCES"
             ELSE IF k = 0 THEN "ENOENT"
             ELSE IF ~CanWrite(E.fs, dir.n) THEN "EACCES"
             ELSE IF ty.t = "d" /\ ~isDir THEN "ENOTDIR"
             ELSE IF ty.t # "d" /\ (isDir \/ slash) THEN "EISDIR"
             ELSE IF isDir /\ Live(E.fs, S.G, k) # {} THEN "ENOTEMPTY" ELSE ""
    IN IF V.p = Dot THEN R(TRUE, S)
       ELSE IF e # "" THEN R(FALSE, Report(C, V, S, e))
       ELSE R(TRUE, [S EXCEPT !.G = @ \cup {<<dir.n, base>>}])

---------------------------------------------------------------------------
(* Commands *)
RECURSIVE Subst(_, _)
Subst(a, p) == \* replace every {} in a
    IF Len(a) < 2 THEN a
    ELSE IF a[1] = 123 /\ a[2] = 125 THEN p \o Subst(Drop(a, 2), p)
    ELSE <<a[1]>> \o Subst(Tail(a), p)

ExecArg(e, V) == IF ~e.dir THEN V.p
                 ELSE LET n == VName(V) IN IF n[1] = 47 THEN n ELSE <<46, 47>> \o n

\* The working directory of the command: [err, n]
ExecDir(E, S, e, V) ==
    IF ~e.dir THEN OK(E.fs.cwd)
    ELSE IF V.dep > 0 THEN OK(V.at)
    ELSE IF V.noff = 0 THEN OK(E.fs.cwd)
    ELSE LET w == Walk(E.fs, S.G, E.fs.cwd, Take(V.p, V.noff), TRUE) IN
         IF w.err = "" /\ ~CanRead(E.fs, w.n) THEN Err("EACCES") ELSE w

\* Changing to a directory needs search permission
Enterable(E, e, n) == ~e.dir \/ CanExec(E.fs, n)

\* What the helper command does: "t" succeeds, "f" fails, "k" is killed, "e"
\* succeeds iff the last byte of its last argument is odd
\* (a name without a slash is looked for in PATH, where only the helper is; a
\* name with one is resolved from the directory that the command runs in)
Helper == B("vh")
Spawnable(E, S, n, argv) ==
    IF IndexFrom(argv[1], 47, 1) = 0 THEN argv[1] = Helper
    ELSE LET w == Walk(E.fs, S.G, n, argv[1], TRUE) IN
         w.err = "" /\ E.fs.nodes[w.n].prog /\ Access(E.fs, w.n, "x")
ExitOk(argv) == LET m == IF Len(argv) >= 2 THEN argv[2] ELSE <<>> IN
                CASE m = <<116>> -> TRUE
                  [] m = <<101>> -> Last(argv) # <<>> /\ Last(Last(argv)) % 2 = 1
                  [] OTHER -> FALSE

\* Take one line of standard input: [ans, rest]
Answer(inp) == LET j == IndexFrom(inp, 10, 1) IN
               [yes |-> inp # <<>> /\ (inp[1] = 121 \/ inp[1] = 89),
                rest |-> IF j = 0 THEN <<>> ELSE Drop(inp, j)]

Run(S, n, argv) == [S EXCEPT !.log = Append(@, [c |-> n, a |-> argv])]

ExecOne(E, C, S, V, e) ==
    LET arg == ExecArg(e, V)
        argv == [i \in 1..Len(e.tmpl) |-> Subst(e.tmpl[i], arg)]
        w == ExecDir(E, S, e, V)
        ans == Answer(S.inp)
        S1 == IF e.confirm THEN [S EXCEPT !.inp = ans.rest] ELSE S
    IN IF w.err # "" THEN R(FALSE, Error(C, V, S))
       ELSE IF e.confirm /\ ~ans.yes THEN R(FALSE, S1)
       ELSE IF ~Enterable(E, e, w.n) \/ ~Spawnable(E, S1, w.n, argv) THEN R(FALSE, Error(C, V, S1))
       ELSE R(ExitOk(argv), Run(S1, w.n, argv))

(* Batches (-exec ... +): S.pend maps the id of the expression to the pending
   arguments, the directory prefix and the directory they belong to.
   Where the system's limits force a batch to be split is not specified: for
   runs with lowered limits, E.split says how many files the k-th command got. *)
Pending(S, e) == e.id \in DOMAIN S.pend /\ S.pend[e.id].args # <<>>
RunBatch(E, S, e, n, args) ==
    LET argv == e.tmpl \o args IN
    IF ~Enterable(E, e, n) \/ ~Spawnable(E, S, n, argv) THEN [S |-> [S EXCEPT !.failed = @ \cup {e.id}], ok |-> FALSE]
    ELSE LET S1 == Run(S, n, argv) IN
         [S |-> IF ExitOk(argv) THEN S1 ELSE [S1 EXCEPT !.failed = @ \cup {e.id}], ok |-> TRUE]
RECURSIVE RunPieces(_, _, _, _, _)
RunPieces(E, S, e, n, args) ==
    LET k == Len(S.log) + 1
        m == IF k > Len(E.split) \/ E.split[k] > Len(args) THEN Len(args) ELSE E.split[k]
        r == RunBatch(E, S, e, n, Take(args, m))
    IN IF m = Len(args) \/ ~r.ok THEN r ELSE RunPieces(E, r.S, e, n, Drop(args, m))
Flush(E, S, e) ==
    \* Run the pending command: [S, spawned]
    LET q == S.pend[e.id]
        S0 == [S EXCEPT !.pend[e.id].args = <<>>]
    IN RunPieces(E, S0, e, q.n, q.args)

ExecMany(E, C, S, V, e) ==
    LET key == IF e.dir THEN Take(V.p, V.noff) ELSE <<>>
        changed == Pending(S, e) /\ e.dir /\ S.pend[e.id].key # key
        f == IF changed THEN Flush(E, S, e) ELSE [S |-> S, ok |-> TRUE]
        S1 == IF f.ok THEN f.S ELSE Error(C, V, f.S)
        w == ExecDir(E, S1, e, V)
        old == IF Pending(S1, e) THEN S1.pend[e.id].args ELSE <<>>
        S2 == [S1 EXCEPT !.pend = (e.id :> [args |-> Append(old, ExecArg(e, V)), key |-> key, n |-> w.n]) @@ @]
    IN IF ~Pending(S1, e) /\ w.err # ""
       THEN R(TRUE, [Error(C, V, S1) EXCEPT !.failed = @ \cup {e.id}])
       ELSE R(TRUE, S2)

\* All pending batches at the end, in the order of the expression
RECURSIVE Execs(_)
Execs(e) == CASE e.op = "leaf" -> IF e.k = "exec" /\ e.multi THEN <<e>> ELSE <<>>
              [] e.op = "not" -> Execs(e.l)
              [] OTHER -> Execs(e.l) \o Execs(e.r)
RECURSIVE FinishExecs(_, _, _, _)
FinishExecs(E, S, es, i) ==
    IF i > Len(es) THEN S
    ELSE LET f == IF Pending(S, es[i]) THEN Flush(E, S, es[i]) ELSE [S |-> S, ok |-> TRUE]
             S1 == IF ~f.ok THEN [f.S EXCEPT !.errs = @ \cup {es[i].opt \o <<32>>}] ELSE f.S
             S2 == IF es[i].id \in S1.failed THEN [S1 EXCEPT !.ret = 1, !.spurious = TRUE] ELSE S1
         IN FinishExecs(E, S2, es, i + 1)

---------------------------------------------------------------------------
(* Tests and actions *)
Leaf(E, C, S, V, e) ==
    LET st == VStat(E, S, V, V.fol)
        nd == E.fs.nodes[st.n]
        stat(f(_)) == IF st.err # "" THEN R(FALSE, Report(C, V, S, st.err)) ELSE R(f(nd), S)
        k == e.k
    IN CASE k = "true" -> R(TRUE, S)
         [] k = "false" -> R(FALSE, S)
         [] k = "print" -> LET T == Table(C, e.st) IN
                           R(TRUE, Put(S, e.st, (IF T.ok THEN ColPath(E, S, T, V, V.p, V.noff) ELSE V.p) \o <<10>>))
         [] k = "print0" -> R(TRUE, Put(S, e.st, V.p \o <<0>>))
         [] k = "printx" -> R(TRUE, Put(S, e.st, XEscape(V.p) \o <<10>>))
         [] k = "printf" ->
              LET r == Render(E, Table(C, e.st), S, V, e.fmt, 1, <<>>, "")
                  S1 == Put(S, e.st, r.b)
              IN R(TRUE, IF r.e = "" THEN S1 ELSE Report(C, V, S1, r.e))
         [] k = "ls" -> R(TRUE, Ls(E, C, S, V, e.st))
         [] k = "prune" -> R(TRUE, [S EXCEPT !.act = "P"])
         [] k = "quit" -> R(TRUE, [S EXCEPT !.act = "X", !.quit = TRUE])
         [] k = "exit" -> R(TRUE, [S EXCEPT !.act = "X", !.quit = TRUE, !.ret = e.v % 256])
         [] k = "limit" ->
              LET n == IF e.id \in DOMAIN S.cnt THEN S.cnt[e.id] + 1 ELSE 1
                  S1 == [S EXCEPT !.cnt = (e.id :> n) @@ @]
              IN R(TRUE, IF WCmp(W(n), e.v) >= 0 THEN [S1 EXCEPT !.act = "X", !.quit = TRUE] ELSE S1)
         [] k = "delete" -> Delete(E, C, S, V)
         [] k = "exec" -> IF e.multi THEN ExecMany(E, C, S, V, e) ELSE ExecOne(E, C, S, V, e)
         [] k = "access" -> LET w == Walk(E.fs, S.G, V.at, V.rel, TRUE) IN
                            R(w.err = "" /\ Access(E.fs, w.n, e.m), S)
         [] k = "depth" -> R(Cmp(e, W(V.dep)), S)
         [] k = "hidden" -> LET n == StripSlashes(VName(V)) IN
                            R(n # <<>> /\ n[1] = 46 /\ n \notin {Dot, DotDot}, S)
         [] k = "name" -> R(GlobMatch(e.pat, IF V.dep = 0 THEN BaseName(V.p) ELSE VName(V), e.fold), S)
         [] k = "path" -> R(GlobMatch(e.pat, V.p, e.fold), S)
         [] k = "regex" -> R(RegexMatch(e.re, V.p, e.fold), S)
         [] k = "lname" -> IF V.t # "l" THEN R(FALSE, S)
                           ELSE LET l == Walk(E.fs, S.G, V.at, V.rel, FALSE) IN
                                IF l.err # "" THEN R(FALSE, Report(C, V, S, l.err))
                                ELSE R(GlobMatch(e.pat, E.fs.nodes[l.n].tgt, e.fold), S)
         [] k \in {"acl", "capable"} ->
              IF V.t = "l" THEN R(FALSE, S)
              ELSE LET w == Walk(E.fs, S.G, V.at, V.rel, TRUE) IN
                   IF w.err # "" THEN R(FALSE, Report(C, V, S, w.err))
                   ELSE R(IF k = "acl" THEN E.fs.nodes[w.n].acl ELSE E.fs.nodes[w.n].cap, S)
         [] k \in {"xattr", "xattrname"} ->
              LET w == Walk(E.fs, S.G, V.at, V.rel, V.t # "l")
                  x == E.fs.nodes[w.n]
              IN IF w.err # "" THEN R(FALSE, Report(C, V, S, w.err))
                 ELSE IF k = "xattr" THEN R(x.xa # <<>>, S)
                 ELSE IF StartsWith(e.b, B("user.")) /\ x.t \notin {"f", "d"} THEN R(FALSE, S)
                 ELSE IF ~StartsWith(e.b, B("security.")) /\ ~StartsWith(e.b, B("system.")) /\ ~CanRead(E.fs, w.n) THEN R(FALSE, Report(C, V, S, "EACCES"))
                 ELSE R(\E i \in 1..Len(x.xa) : x.xa[i] = e.b, S)
         [] k = "type" -> R(V.t \in e.ts, S)
         [] k = "xtype" ->
              LET mode == IF V.fol = "N" THEN "T" ELSE "N"
                  y == VType(E, S, V, mode)
              IN IF mode = "T" /\ y.err = "ELOOP" THEN R("l" \in e.ts, S)
                 ELSE IF y.err # "" THEN R(FALSE, Report(C, V, S, y.err))
                 ELSE R(y.t \in e.ts, S)
         [] k = "empty" ->
              IF V.t = "f" THEN stat(LAMBDA x : x.size = <<0, 0>>)
              ELSE IF V.t = "d" THEN
                  LET w == Walk(E.fs, S.G, V.at, V.rel, TRUE)
                      fo == {i \in 1..Len(E.fop) : E.fop[i].p = V.p}
                      fr == {i \in 1..Len(E.frd) : E.frd[i].p = V.p}
                  IN
                  IF fo # {} THEN R(FALSE, Report(C, V, S, E.fop[CHOOSE i \in fo : TRUE].e))
                  ELSE IF w.err # "" THEN R(FALSE, Report(C, V, S, w.err))
                  ELSE IF ~CanRead(E.fs, w.n) THEN R(FALSE, Report(C, V, S, "EACCES"))
                  ELSE IF fr # {} /\ (Live(E.fs, S.G, w.n) = {} \/ E.frd[CHOOSE i \in fr : TRUE].k = 0)
                       THEN R(FALSE, Report(C, V, S, E.frd[CHOOSE i \in fr : TRUE].e))
                  ELSE R(Live(E.fs, S.G, w.n) = {}, S)
              ELSE R(FALSE, S)
         [] k = "size" -> stat(LAMBDA x : Cmp(e, WCeilShift(x.size, e.sh)))
         [] k = "links" -> stat(LAMBDA x : Cmp(e, W(x.nlink)))
         [] k = "inum" -> stat(LAMBDA x : Cmp(e, x.ino))
         [] k = "uid" -> stat(LAMBDA x : Cmp(e, W(x.uid)))
         [] k = "gid" -> stat(LAMBDA x : Cmp(e, W(x.gid)))
         [] k = "nouser" -> stat(LAMBDA x : Lookup(E.users, x.uid) = 0)
         [] k = "nogroup" -> stat(LAMBDA x : Lookup(E.groups, x.gid) = 0)
         [] k = "perm" -> stat(LAMBDA x : LET m == IF V.t = "d" THEN e.dm ELSE e.fm IN
                                  CASE e.cmp = "eq" -> x.mode = m
                                    [] e.cmp = "all" -> (x.mode & m) = m
                                    [] e.cmp = "any" -> m = 0 \/ (x.mode & m) # 0)
         [] k = "samefile" -> stat(LAMBDA x : x.dev = e.dev /\ x.ino = e.ino)
         [] k = "sparse" -> stat(LAMBDA x : WCmp(x.blk, WCeilShift(x.size, 9)) < 0)
         [] k = "newer" -> stat(LAMBDA x : TCmp(NTime(x, e.f), e.ref) > 0)
         [] k = "time" -> stat(LAMBDA x : LET d == TDiff(e.ref, NTime(x, e.f)) IN
                                  CmpI(e, CASE e.unit = "d" -> DiffDays(d) [] e.unit = "m" -> DiffMins(d)
                                            [] e.unit = "s" -> DiffSecs(d)))
         [] k = "used" -> stat(LAMBDA x : LET d == TDiff(x.at, x.ct) IN
                                  d[1] >= 0 /\ CmpI(e, DiffDaysUp(d)))

RECURSIVE Ev(_, _, _, _, _)
Ev(E, C, S, V, e) ==
    CASE e.op = "leaf" -> Leaf(E, C, S, V, e)
      [] e.op = "not" -> LET a == Ev(E, C, S, V, e.l) IN R(~a.r, a.S)
      [] e.op = "and" -> LET a == Ev(E, C, S, V, e.l) IN
                         IF a.r /\ ~a.S.quit THEN Ev(E, C, a.S, V, e.r) ELSE R(FALSE, a.S)
      [] e.op = "or" -> LET a == Ev(E, C, S, V, e.l) IN
                        IF ~a.r /\ ~a.S.quit THEN Ev(E, C, a.S, V, e.r) ELSE R(TRUE, a.S)
      [] e.op = "comma" -> LET a == Ev(E, C, S, V, e.l) IN
                           IF ~a.S.quit THEN Ev(E, C, a.S, V, e.r) ELSE R(a.r, a.S)
=============================================================================
