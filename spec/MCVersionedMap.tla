--------------------------- MODULE MCVersionedMap ---------------------------
EXTENDS VersionedMap
CONSTANTS MaxTrees, MaxSnaps
Bound == Len(trees) <= MaxTrees /\ \A i \in 1..Len(trees) : Len(trees[i].snaps) <= MaxSnaps
Spec == VMInit /\ [][VMNext]_trees
=============================================================================
