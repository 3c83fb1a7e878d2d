---------------------------- MODULE VersionedMap ----------------------------
(***************************************************************************)
(* The abstract meaning of tevm.Tree: a finite map from keys to values     *)
(* whose current version can be remembered (Snapshot), restored            *)
(* (Rollback) and used as the start of an independent map (CopyAt).        *)
(*                                                                         *)
(* trees is the sequence of all map objects of a history; the first one is *)
(* the zero value, the others were made by Copy.  Keys are ranks in the    *)
(* bytewise order of the real keys.                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS Keys, Vals       \* sets of integers; 0 \in Vals is "no bytes at all"

VARIABLE trees

Empty == [k \in {} |-> 0]
Fresh == [cur |-> Empty, snaps |-> <<>>]

Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Drop(m, k)   == [x \in DOMAIN m \ {k} |-> m[x]]
Lookup(m, k) == IF k \in DOMAIN m THEN m[k] ELSE 0

VMInit == trees = << Fresh >>

Insert(t, k, v) == trees' = [trees EXCEPT ![t].cur = Put(@, k, v)]

Delete(t, k, present) ==
    /\ present = (k \in DOMAIN trees[t].cur)
    /\ trees' = [trees EXCEPT ![t].cur = Drop(@, k)]

Get(t, k, v) == v = Lookup(trees[t].cur, k) /\ UNCHANGED trees

Snapshot(t) == trees' = [trees EXCEPT ![t].snaps = Append(@, trees[t].cur)]

\* back to snapshot s; the snapshots taken after it are gone, it and the
\* earlier ones remain
Rollback(t, s) ==
    /\ s \in 1..Len(trees[t].snaps)
    /\ trees' = [trees EXCEPT ![t] = [cur |-> @.snaps[s], snaps |-> SubSeq(@.snaps, 1, s)]]

\* a new map that starts as snapshot s, with the snapshots up to s
Copy(t, s) ==
    /\ s \in 1..Len(trees[t].snaps)
    /\ trees' = Append(trees, [cur |-> trees[t].snaps[s], snaps |-> SubSeq(trees[t].snaps, 1, s)])

\* the pairs of m in the order of iteration, which is descending in the keys
RECURSIVE Desc(_)
Desc(S) == IF S = {} THEN <<>>
           ELSE LET k == CHOOSE x \in S : \A y \in S : y <= x
                IN <<k>> \o Desc(S \ {k})
Pairs(m) == LET d == Desc(DOMAIN m) IN [i \in 1..Len(d) |-> << d[i], m[d[i]] >>]

\* visiting stops once n pairs have been seen (0: never)
IterResult(m, n) == LET p == Pairs(m) IN IF n = 0 \/ n > Len(p) THEN p ELSE SubSeq(p, 1, n)

Objs == 1..Len(trees)
DoInsert   == \E t \in Objs : \E k \in Keys, v \in Vals : Insert(t, k, v)
DoDelete   == \E t \in Objs : \E k \in Keys : Delete(t, k, k \in DOMAIN trees[t].cur)
DoSnapshot == \E t \in Objs : Snapshot(t)
DoRollback == \E t \in Objs : \E s \in 1..Len(trees[t].snaps) : Rollback(t, s)
DoCopy     == \E t \in Objs : \E s \in 1..Len(trees[t].snaps) : Copy(t, s)

VMNext == DoInsert \/ DoDelete \/ DoSnapshot \/ DoRollback \/ DoCopy

----------------------------------------------------------------------------
(* properties *)
TypeOK == \A i \in 1..Len(trees) :
            /\ DOMAIN trees[i].cur \subseteq Keys
            /\ \A s \in 1..Len(trees[i].snaps) : DOMAIN trees[i].snaps[s] \subseteq Keys

Sorted == \A i \in 1..Len(trees) :
            LET p == Pairs(trees[i].cur) IN
              /\ Len(p) = Cardinality(DOMAIN trees[i].cur)
              /\ \A a, b \in 1..Len(p) : a < b => p[a][1] > p[b][1]

\* at most one map is affected by a step
Isolated == [][ \A i, j \in 1..Len(trees) :
                  (trees'[i] # trees[i] /\ trees'[j] # trees[j]) => i = j ]_trees

\* remembered versions never change: a step can only add or drop snapshots at the end
SnapsImmutable == [][ \A i \in 1..Len(trees) :
                        \A s \in 1..Len(trees[i].snaps) :
                           s <= Len(trees'[i].snaps) => trees'[i].snaps[s] = trees[i].snaps[s] ]_trees
=============================================================================
