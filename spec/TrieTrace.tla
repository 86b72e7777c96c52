------------------------------ MODULE TrieTrace -----------------------------
(***************************************************************************)
(* Conformance: recorded histories of calls to src/trie.c, with everything   *)
(* the calls returned, as behaviours of Trie.                                *)
(* A case: [keys, str, ev]; an event: [o, k, v, r, w, all]:                   *)
(*   o   operation            k, v  key (index) and value given              *)
(*   r   key of the leaf returned (0: none)    w  its value                   *)
(*   for o = "all": it = iteration, f = value found for every key (-1: none), *)
(*                  pre, post = prefix and closest-key look-ups of every key  *)
(***************************************************************************)
EXTENDS Trie, Integers, TLC, CaseData

VARIABLES id, i, m, pre
vars == <<id, i, m, pre>>
T == Cases[id]
N == Len(T.keys)

Init == /\ id \in 1..Len(Cases)
        /\ i = 1
        /\ m = Empty
        /\ pre = IF T.str THEN PreTable(T.keys) ELSE <<>>

Ret(k, v) == T.ev[i].r = k /\ (k # 0 => T.ev[i].w = v)
Found(k) == IF Has(m, k) THEN Ret(k, At(m, k)) ELSE Ret(0, 0)

Do(e) ==
    CASE e.o = "ins"  -> /\ m' = Insert(m, e.k)
                         /\ Ret(e.k, IF Has(m, e.k) THEN At(m, e.k) ELSE 0)
      [] e.o = "set"  -> m' = Set(m, e.k, e.v) /\ e.r = e.k
      \* an insertion that could not get memory changes nothing
      [] e.o = "nomem" -> m' = m /\ ~Has(m, e.k) /\ e.r = 0
      [] e.o = "del"  -> m' = Remove(m, e.k) /\ e.r = (IF Has(m, e.k) THEN e.k ELSE 0)
      [] e.o = "find" -> m' = m /\ Found(e.k)
      [] e.o = "clear" -> m' = Empty
      [] e.o = "all"  ->
            /\ m' = m
            /\ e.it = [j \in 1..Len(m) |-> <<m[j].k, m[j].v>>]
            /\ e.f = [k \in 1..N |-> IF Has(m, k) THEN At(m, k) ELSE -1]
            /\ T.str => /\ e.pre = [k \in 1..N |-> LongestPrefix(m, pre, T.keys, k)]
                        /\ \A k \in 1..N : e.post[k] \in Closest(m, pre, k)

Next == /\ i <= Len(T.ev)
        /\ Do(T.ev[i])
        /\ i' = i + 1
        /\ UNCHANGED <<id, pre>>
Spec == Init /\ [][Next]_vars

Accept == IF i > Len(T.ev) THEN PrintT(<<"ACCEPT", id>>)
          ELSE ENABLED Next \/ PrintT(<<"DIFFER", id, i, T.ev[i].o, T.ev[i].k, m>>)
=============================================================================
