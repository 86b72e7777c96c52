-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* The table behind names, options, identities, pruned paths and colours    *)
(* (src/trie.c) as what it claims to be: a finite map from byte strings to   *)
(* values that remembers the order of insertion.                             *)
(*                                                                          *)
(* A table is a sequence of [k, v]: a key (here: an index into a sequence    *)
(* KEYS of byte strings) and its value, in insertion order.  Value 0 is the   *)
(* value of a key that was inserted but never set.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Empty == <<>>
Pos(m, k) == {i \in 1..Len(m) : m[i].k = k}
Has(m, k) == Pos(m, k) # {}
At(m, k) == m[CHOOSE i \in Pos(m, k) : TRUE].v
Present(m) == {m[i].k : i \in 1..Len(m)}

Insert(m, k) == IF Has(m, k) THEN m ELSE Append(m, [k |-> k, v |-> 0])
Set(m, k, v) == LET n == Insert(m, k)
                IN [i \in 1..Len(n) |-> IF n[i].k = k THEN [k |-> k, v |-> v] ELSE n[i]]
Remove(m, k) == SelectSeq(m, LAMBDA e : e.k # k)

(* pre[a][b]: key a is a prefix of key b (or equal to it).                    *)
IsPre(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
PreTable(keys) == [a \in 1..Len(keys) |-> [b \in 1..Len(keys) |-> IsPre(keys[a], keys[b])]]

(* The longest stored key that is a prefix of key q; 0: none.                 *)
LongestPrefix(m, pre, keys, q) ==
    LET X == {k \in Present(m) : pre[k][q]}
    IN IF X = {} THEN 0 ELSE CHOOSE k \in X : \A l \in X : Len(keys[l]) <= Len(keys[k])

(* The keys that a look-up of "a key starting with q" may give: any of the    *)
(* stored keys that start with q and of which no other such key is a prefix   *)
(* (q itself, if it is stored); {0}: none.                                    *)
Closest(m, pre, q) ==
    LET X == {k \in Present(m) : pre[q][k]}
    IN IF X = {} THEN {0} ELSE {k \in X : \A l \in X : pre[l][k] => l = k}
=============================================================================
