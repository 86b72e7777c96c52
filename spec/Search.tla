------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The bfs process as a state machine: parse the command line, walk the     *)
(* trees below the starting paths with the chosen strategy, evaluate the    *)
(* expression on each visited file, finish pending commands and exit.       *)
(*                                                                         *)
(* Cases is a sequence of environments E (see Cmdline); a behaviour runs    *)
(* one of them.                                                             *)
(*                                                                         *)
(*   ph   "init", "walk", "late", "finish", "done"                          *)
(*   cmd  the parsed command line                                           *)
(*   Q    pending items: [kd, v] with kd = "v" (visit v), "x" (read the     *)
(*        directory v), "p" (post-order visit of v)                         *)
(*   wait directories with unfinished children: key -> [v, left]            *)
(*   late visits postponed to the end (-depth with ids, eds)                *)
(*   S    the effects so far (see Eval)                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Bytes, FS, Eval, CaseData

P == INSTANCE Cmdline


VARIABLES id, ph, cmd, eager, Q, wait, late, S
vars == <<id, ph, cmd, eager, Q, wait, late, S>>

E == Cases[id]
C == cmd.cfg

---------------------------------------------------------------------------
(* Order *)
\* Lexicographic order on sequences of ranks; a prefix comes first
RECURSIVE SeqLess(_, _, _)
SeqLess(a, b, i) ==
    IF i > Len(a) THEN i <= Len(b)
    ELSE IF i > Len(b) THEN FALSE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE SeqLess(a, b, i + 1)
KeyLess(a, b) == SeqLess(a, b, 1)
ProperPrefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
PostLess(a, b) == ProperPrefix(b, a) \/ (~ProperPrefix(a, b) /\ KeyLess(a, b))

\* Exponential bands of -S eds: {0}, {1}, {2, 3}, {4..7}, ...
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Band(st, d) == CASE st = "dfs" -> 0
                 [] st \in {"bfs", "ids"} -> d
                 [] st = "eds" -> IF d = 0 THEN 0 ELSE 1 + Log2(d)
ItemBand(st, it) == Band(st, IF it.kd = "x" THEN it.v.dep + 1 ELSE it.v.dep)

ItemLess(st, a, b) ==
    IF (a.kd = "p") # (b.kd = "p") THEN a.kd = "p"
    ELSE LET x == ItemBand(st, a)
             y == ItemBand(st, b)
         IN IF x # y THEN x < y ELSE KeyLess(a.v.key, b.v.key)
LateLess(st, a, b) ==
    IF st = "ids" THEN a.dep > b.dep \/ (a.dep = b.dep /\ KeyLess(a.key, b.key))
    ELSE PostLess(a.key, b.key)

---------------------------------------------------------------------------
(* Starting paths *)
Fol(dep) == IF C.follow = "L" \/ (C.follow = "H" /\ dep = 0) THEN "T" ELSE "N"

RootRank(rs, i) == Cardinality({j \in 1..Len(rs) : LexLess(rs[j], rs[i]) \/ (rs[j] = rs[i] /\ j <= i)})

RootItems(c, fs) ==
    LET rs == c.roots IN
    {[kd |-> "v", v |->
        [p |-> rs[i], noff |-> BaseOff(rs[i]), dep |-> 0, root |-> rs[i], at |-> fs.cwd, rel |-> rs[i],
         dt |-> "?", fol |-> IF c.cfg.follow = "P" THEN "N" ELSE "T", t |-> "?", n |-> 0,
         key |-> <<RootRank(rs, i)>>, anc |-> <<>>, pdev |-> -1]] : i \in 1..Len(rs)}

\* The children of directory v, whose node is v.n
ChildItems(v, names) ==
    LET fs == E.fs
        kids == fs.nodes[v.n].kids
        prefix == IF Last(v.p) = 47 THEN v.p ELSE Append(v.p, 47)
    IN {[kd |-> "v", v |->
          [p |-> prefix \o kids[i].n, noff |-> Len(prefix), dep |-> v.dep + 1, root |-> v.root,
           at |-> v.n, rel |-> kids[i].n, dt |-> fs.nodes[kids[i].i].t, fol |-> Fol(v.dep + 1), t |-> "?", n |-> 0,
           key |-> Append(v.key, i), anc |-> Append(v.anc, <<fs.nodes[v.n].dev, fs.nodes[v.n].ino>>),
           pdev |-> fs.nodes[v.n].dev]] : i \in names}

---------------------------------------------------------------------------
(* One visit.  The outcome is [S, act, ev, v]: the effects, what to do with
   the file ("C" continue below it, "P" not, "X" stop), whether the expression
   was evaluated, and the visit with its type filled in. *)
MustStat(v) ==
    \/ v.dt = "?"
    \/ eager
    \/ v.dt = "d" /\ (C.follow = "L" \/ C.xdev \/ C.mount)
    \/ v.dt = "l" /\ v.fol = "T"

SafeX == {32, 9, 10, 39, 34, 92}

\* Exclusions, then the expression if this is the visit that evaluates it
Gate(S0, v, post) ==
    LET x == [i \in {} |-> 0]
        RECURSIVE Excl(_, _)
        Excl(s, i) == IF i > Len(cmd.excl) THEN R(FALSE, s)
                      ELSE LET a == Ev(E, C, s, v, cmd.excl[i]) IN
                           IF a.r THEN R(TRUE, a.S) ELSE Excl(a.S, i + 1)
        ex == Excl([S0 EXCEPT !.act = "C"], 1)
        unsafe == C.xsafe /\ \E i \in 1..Len(v.p) : v.p[i] \in SafeX
        act0 == IF v.dep >= C.maxd THEN "P" ELSE "C"
        atPost == C.post /\ (C.strat = "ids" \/ v.t = "d") /\ v.dep < C.maxd
        S1 == [ex.S EXCEPT !.act = act0]
    IN IF ex.r THEN [S |-> ex.S, act |-> "P", ev |-> FALSE, v |-> v]
       ELSE IF unsafe THEN [S |-> Error(C, v, ex.S), act |-> "P", ev |-> FALSE, v |-> v]
       ELSE IF atPost = post /\ v.dep >= C.mind /\ v.dep <= C.maxd
            THEN LET a == Ev(E, C, S1, v, cmd.expr) IN [S |-> a.S, act |-> a.S.act, ev |-> TRUE, v |-> v]
       ELSE [S |-> S1, act |-> act0, ev |-> FALSE, v |-> v]

\* The device the visited file is on, if it can be examined
VDev(v) == LET r == VStat(E, S, v, v.fol) IN IF r.err = "" THEN E.fs.nodes[r.n].dev ELSE v.pdev
IsMount(v) == v.dep > 0 /\ VDev(v) # v.pdev

Pre(v0) ==
    LET st == VStat(E, S, v0, v0.fol)
        must == MustStat(v0)
        t == IF must THEN (IF st.err = "" THEN E.fs.nodes[st.n].t ELSE "?") ELSE v0.dt
        v == [v0 EXCEPT !.t = t, !.n = Stat(E.fs, S.G, v0.at, v0.rel, v0.fol).n]
        nd == E.fs.nodes[st.n]
        loop == C.follow = "L" /\ ~C.unique /\ t = "d" /\ \E i \in 1..Len(v.anc) : v.anc[i] = <<nd.dev, nd.ino>>
        none(s, a) == [S |-> s, act |-> a, ev |-> FALSE, v |-> v]
        fid == <<nd.dev, nd.ino>>
    IN IF must /\ st.err # "" THEN none(Report(C, v, S, st.err), "P")
       ELSE IF loop THEN none(Error(C, v, S), "P")
       ELSE IF C.mount /\ IsMount(v) THEN none(S, "P")
       ELSE IF C.unique /\ st.err # "" THEN none(Report(C, v, S, st.err), "C")
       ELSE IF C.unique /\ fid \in S.seen THEN none(S, "P")
       ELSE LET g == Gate(IF C.unique THEN [S EXCEPT !.seen = @ \cup {fid}] ELSE S, v, FALSE)
            IN g

Descend(o) == o.act = "C" /\ o.v.t = "d" /\ ~(C.xdev /\ IsMount(o.v))

---------------------------------------------------------------------------
(* Reading a directory: which entries are listed, and the error if any *)
FaultAt(fl, p) == {i \in 1..Len(fl) : fl[i].p = p}
Listing(v) ==
    LET m == FaultAt(E.fop, v.p)
        r == FaultAt(E.frd, v.p)
        w == Walk(E.fs, S.G, v.at, v.rel, TRUE)
        live == Live(E.fs, S.G, v.n)
        seen(k) == {i \in live : Cardinality({j \in live : j <= i}) <= k}
    IN IF m # {} THEN [e |-> E.fop[CHOOSE i \in m : TRUE].e, names |-> {}]
       ELSE IF w.err # "" THEN [e |-> w.err, names |-> {}]
       ELSE IF ~CanRead(E.fs, w.n) THEN [e |-> "EACCES", names |-> {}]
       ELSE IF r # {} THEN LET f == E.frd[CHOOSE i \in r : TRUE] IN [e |-> f.e, names |-> seen(f.k)]
       ELSE [e |-> "", names |-> live]

---------------------------------------------------------------------------
(* Actions *)
Init == /\ id \in 1..Len(Cases)
        /\ ph = "init" /\ cmd = [err |-> "none"] /\ eager = FALSE
        /\ Q = {} /\ wait = <<>> /\ late = {} /\ S = InitS(Cases[id])

Start ==
    /\ ph = "init"
    /\ LET c == P!Parse(E) IN
       /\ cmd' = c
       /\ IF c.err # "" THEN ph' = "done" /\ Q' = {} /\ S' = [S EXCEPT !.ret = 1]
          ELSE ph' = "walk" /\ Q' = RootItems(c, E.fs) /\ UNCHANGED S
    /\ eager' \in (IF E.eager THEN BOOLEAN ELSE {FALSE})
    /\ UNCHANGED <<id, wait, late>>

PostByWait == C.post /\ C.strat \in {"bfs", "dfs"}

\* A file at key k is finished: items that become ready
Finished(w, k) ==
    \* [wait, items] after finishing one child of the directory with key Front(k)
    LET pk == Front(k) IN
    IF pk \notin DOMAIN w THEN [w |-> w, items |-> {}]
    ELSE LET d == w[pk] IN
         IF d.left = 1 THEN [w |-> [x \in DOMAIN w \ {pk} |-> w[x]], items |-> {[kd |-> "p", v |-> d.v]}]
         ELSE [w |-> [w EXCEPT ![pk].left = @ - 1], items |-> {}]

Stop(s) ==
    /\ S' = s /\ ph' = "finish" /\ Q' = {} /\ late' = {} /\ wait' = <<>>

Visit(it) ==
    /\ it.kd = "v"
    /\ LET o == Pre(it.v)
           v == o.v
           down == Descend(o)
           mountPost == C.post /\ o.act = "C" /\ v.t = "d" /\ ~down /\ v.dep < C.maxd
           fin == Finished(wait, v.key)
       IN IF o.act = "X" THEN Stop(o.S)
          ELSE /\ S' = o.S
               /\ ph' = ph
               /\ late' = IF C.post /\ o.act = "C" /\ v.dep < C.maxd
                             /\ (C.strat = "ids" \/ (C.strat = "eds" /\ v.t = "d"))
                          THEN late \cup {v} ELSE late
               /\ IF down THEN Q' = (Q \ {it}) \cup {[kd |-> "x", v |-> v]} /\ wait' = wait
                  ELSE IF mountPost /\ PostByWait
                       THEN Q' = (Q \ {it}) \cup {[kd |-> "p", v |-> v]} /\ wait' = wait
                  ELSE Q' = (Q \ {it}) \cup fin.items /\ wait' = fin.w

Read(it) ==
    /\ it.kd = "x"
    /\ LET l == Listing(it.v)
           kids == ChildItems(it.v, l.names)
       IN /\ S' = IF l.e # "" THEN Report(C, it.v, S, l.e) ELSE S
          /\ IF PostByWait THEN
                 IF kids = {} THEN Q' = (Q \ {it}) \cup {[kd |-> "p", v |-> it.v]} /\ wait' = wait
                 ELSE /\ Q' = (Q \ {it}) \cup kids
                      /\ wait' = (it.v.key :> [v |-> it.v, left |-> Cardinality(kids)]) @@ wait
             ELSE Q' = (Q \ {it}) \cup kids /\ wait' = wait
          /\ UNCHANGED <<ph, late>>

PostVisit(it) ==
    /\ it.kd = "p"
    /\ LET o == Gate(S, it.v, TRUE)
           fin == Finished(wait, it.v.key)
       IN IF o.act = "X" THEN Stop(o.S)
          ELSE S' = o.S /\ Q' = (Q \ {it}) \cup fin.items /\ wait' = fin.w /\ UNCHANGED <<ph, late>>

Do(it) == /\ (Visit(it) \/ Read(it) \/ PostVisit(it))
          /\ UNCHANGED <<id, cmd, eager>>

MinItem == FoldSet(LAMBDA a, b : IF ItemLess(C.strat, a, b) THEN a ELSE b, CHOOSE a \in Q : TRUE, Q)
MinLate == FoldSet(LAMBDA a, b : IF LateLess(C.strat, a, b) THEN a ELSE b, CHOOSE a \in late : TRUE, late)

\* Items that may come next when siblings are not sorted
Free(it) ==
    C.strat \in {"ids", "eds"} => \A o \in Q : ItemBand(C.strat, o) >= ItemBand(C.strat, it)
FreeLate(v) ==
    IF C.strat = "ids" THEN \A o \in late : o.dep <= v.dep
    ELSE \A o \in late : ~ProperPrefix(v.key, o.key)

Step == /\ ph = "walk" /\ Q # {}
        /\ IF C.sort THEN Do(MinItem) ELSE \E it \in Q : Free(it) /\ Do(it)

EndWalk == /\ ph = "walk" /\ Q = {}
           /\ ph' = "late"
           /\ UNCHANGED <<id, cmd, eager, Q, wait, late, S>>

DoLate(v) ==
    /\ LET o == Gate(S, v, TRUE) IN
       IF o.act = "X" THEN Stop(o.S)
       ELSE S' = o.S /\ late' = late \ {v} /\ UNCHANGED <<ph, Q, wait>>
    /\ UNCHANGED <<id, cmd, eager>>

LateStep == /\ ph = "late" /\ late # {}
            /\ IF C.sort THEN DoLate(MinLate) ELSE \E v \in late : FreeLate(v) /\ DoLate(v)

EndLate == /\ ph = "late" /\ late = {}
           /\ ph' = "finish"
           /\ UNCHANGED <<id, cmd, eager, Q, wait, late, S>>

(* Stream E.full (if not 0) cannot be written to: output to it, buffered or not,
   is a failure by the time bfs exits. *)
Unwritten(s) == E.full # 0 /\ s.outs[E.full] # <<>>

Finish == /\ ph = "finish"
          /\ ph' = "done"
          /\ LET s == FinishExecs(E, S, Execs(cmd.expr), 1) IN
             S' = IF Unwritten(s) /\ s.ret = 0 THEN [s EXCEPT !.ret = 1] ELSE s
          /\ UNCHANGED <<id, cmd, eager, Q, wait, late>>

Next == Start \/ Step \/ EndWalk \/ LateStep \/ EndLate \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
