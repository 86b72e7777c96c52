------------------------------ MODULE Conform -------------------------------
(***************************************************************************)
(* Conformance: is each observed run of bfs a behaviour of Search?          *)
(* Each case carries its observation E.obs: [outs, chunks, ret, log, gone, fds, leak]. *)
(* Steps that write something the real run did not write are cut off; a     *)
(* case whose final state agrees with the observation is ACCEPTed.          *)
(***************************************************************************)
EXTENDS Search



Obs == E.obs
\* (streams only grow, and what is in S.outs has been compared before)
PrefixOk(s) == \A k \in (1..E.ns) \ {E.full} :
    LET a == Len(S.outs[k])
        b == Len(s.outs[k])
    IN b = a \/ (b <= Len(Obs.outs[k]) /\ SubSeq(s.outs[k], a + 1, b) = SubSeq(Obs.outs[k], a + 1, b))

\* For runs without -s, the next path in the visit log (stream E.log)
NextLogged ==
    IF E.log = 0 THEN <<>> ELSE
    LET n == Len(S.outs[E.log])
        j == IndexFrom(Obs.outs[E.log], 0, n + 1)
    IN IF j = 0 THEN <<>> ELSE SubSeq(Obs.outs[E.log], n + 1, j - 1)

MinOf(X) == CHOOSE a \in X : \A b \in X : a = b \/ KeyLess(a.v.key, b.v.key)
MinOfLate(X) == CHOOSE a \in X : \A b \in X : a = b \/ KeyLess(a.key, b.key)

\* Identical starting paths give interchangeable visits: consider the first only
Same(a, b) == a.p = b.p /\ a.dep = b.dep /\ a.root = b.root
Distinct(X) == {a \in X : \A b \in X : a.kd = b.kd /\ Same(a.v, b.v) => a = b \/ KeyLess(a.v.key, b.v.key)}
DistinctV(X) == {a \in X : \A b \in X : Same(a, b) => a = b \/ KeyLess(a.key, b.key)}

Silent(it) == CASE it.kd = "x" -> TRUE
                [] it.kd = "v" -> ~Pre(it.v).ev
                [] it.kd = "p" -> ~Gate(S, it.v, TRUE).ev
\* Errors that doing a silent item would report
Colon == <<58, 32>>
\* (paths in coloured diagnostics are not compared)
Explains(p, ch) == C.color = "always" \/ StartsWith(ch, p \o Colon) \/ (Len(p) > 0 /\ Last(p) = 32 /\ StartsWith(ch, p))
Explained(p) == \E i \in 1..Len(Obs.chunks) : Explains(p, Obs.chunks[i])
ErrsAfter(it) == CASE it.kd = "x" -> LET l == Listing(it.v) IN
                                     IF l.e # "" THEN Report(C, it.v, S, l.e).errs ELSE S.errs
                   [] it.kd = "v" -> Pre(it.v).S.errs
                   [] it.kd = "p" -> Gate(S, it.v, TRUE).S.errs
Plausible(it) == \A p \in ErrsAfter(it) \ S.errs : Explained(p)

\* Silent items are done as soon as possible, except that one whose error was
\* not observed is left for last (the search may have stopped before it).
CStep ==
    /\ ph = "walk" /\ Q # {}
    /\ IF C.sort THEN Do(MinItem)
       ELSE LET fr == {it \in Q : Free(it)}
                si == {it \in fr : Silent(it)}
                pl == {it \in si : Plausible(it)}
                nx == NextLogged
                lg == Distinct({it \in fr \ si : E.log = 0 \/ it.v.p = nx})
            IN IF pl # {} THEN Do(MinOf(pl))
               ELSE IF lg # {} THEN \E it \in lg : Do(it)
               ELSE si # {} /\ Do(MinOf(si))
CLate ==
    /\ ph = "late" /\ late # {}
    /\ IF C.sort THEN DoLate(MinLate)
       ELSE LET fr == {v \in late : FreeLate(v)}
                si == {v \in fr : ~Gate(S, v, TRUE).ev}
                nx == NextLogged
                lg == DistinctV({v \in fr \ si : E.log = 0 \/ v.p = nx})
            IN IF si # {} THEN DoLate(MinOfLate(si)) ELSE \E v \in lg : DoLate(v)

CNext == /\ (Start \/ CStep \/ EndWalk \/ CLate \/ EndLate \/ Finish)
         /\ PrefixOk(S')
CSpec == Init /\ [][CNext]_vars

---------------------------------------------------------------------------
\* Diagnostics about output that cannot be written; at least one names the stream
NoSpace == <<78, 111, 32, 115, 112, 97, 99, 101>>                          \* "No space"
StdoutName == <<40, 115, 116, 97, 110, 100, 97, 114, 100, 32, 111, 117, 116, 112, 117, 116, 41>>
Has(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
AboutOutput(ch) == E.full # 0 /\ Has(ch, NoSpace)
NamesOutput(ch) == \/ E.full = 1 /\ Has(ch, StdoutName)
                   \/ \E i \in 1..Len(E.files) : E.files[i].k = E.full /\ Has(ch, E.files[i].b)
OutputErrsOk == Unwritten(S) => \E i \in 1..Len(Obs.chunks) : AboutOutput(Obs.chunks[i]) /\ NamesOutput(Obs.chunks[i])

ErrsOk ==
    IF cmd.err # "" THEN Len(Obs.chunks) > 0
    ELSE /\ OutputErrsOk
         /\ \A p \in S.errs : \E i \in 1..Len(Obs.chunks) : Explains(p, Obs.chunks[i])
         /\ \A i \in 1..Len(Obs.chunks) : \/ \E p \in S.errs : Explains(p, Obs.chunks[i])
                                          \/ Unwritten(S) /\ AboutOutput(Obs.chunks[i])
                                          \/ S.spurious /\ Len(Obs.chunks[i]) > 0 /\ Obs.chunks[i][1] = 45
Gone == {<<Obs.gone[i].d, Obs.gone[i].n>> : i \in 1..Len(Obs.gone)}

OutsOk == \A k \in (1..E.ns) \ {E.full} : Obs.outs[k] = S.outs[k]
LogOk == Obs.log = S.log
\* Descriptors other than 0, 1, 2 seen by commands; directories still open at exit
FdsOk == Obs.fds = 0 /\ Obs.leak = 0
Agrees == OutsOk /\ ErrsOk /\ FdsOk /\ LogOk /\ Obs.ret = S.ret /\ Gone = S.G

Why == [outs |-> OutsOk, fds |-> FdsOk, errs |-> ErrsOk, log |-> LogOk, ret |-> Obs.ret = S.ret, gone |-> Gone = S.G]

\* Evaluated in every state: reports acceptance and, for diagnosis, disagreement
Accept == ph = "done" => IF Agrees THEN PrintT(<<"ACCEPT", id>>)
                         ELSE PrintT(<<"DIFFER", id, Why, cmd.err, S.ret, S.errs>>)
=============================================================================
