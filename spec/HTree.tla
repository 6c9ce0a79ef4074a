------------------------------- MODULE HTree -------------------------------
(* C04 / C16: hash-indexed directories.                                      *)
(*                                                                           *)
(* Names are abstracted to the rank of their hash (1..R, equal ranks are     *)
(* hash collisions).  hs is the sorted sequence of all names ever inserted,  *)
(* live says which of them still exist.  The leaves are a partition of hs    *)
(* (a cut after position i starts a new leaf); the key of a leaf is          *)
(*    2k     with hs[i] < k <= hs[i+1]  when the cut separates two hashes,   *)
(*    2r+1   when the cut is inside the group of names with hash r           *)
(* (bit 0 marks a continued hash).  The leaves hang below an index tree with *)
(* d levels of interior nodes, partitioned in the same way; the first entry  *)
(* of every node has no key (it acts as 0).                                  *)
(*                                                                           *)
(* The algorithm layer is the descent: in every node take the entries from   *)
(* the last one with key <= 2h to the last one with key <= 2h+1.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS R, MaxNames, MaxDepth, Emit

VARIABLES phase, hs, live, cuts, keys, depth, mid, low
vars == <<phase, hs, live, cuts, keys, depth, mid, low>>

N == Len(hs)
RECURSIVE Sorted(_, _)
\* non-decreasing sequences of length n with values >= lo
Sorted(n, lo) == IF n = 0 THEN {<<>>} ELSE UNION { { <<x>> \o s : s \in Sorted(n - 1, x) } : x \in lo..R }

Init == /\ hs \in UNION { Sorted(n, 1) : n \in 0..MaxNames }
        /\ phase = "leaves" /\ live = <<>> /\ cuts = {} /\ keys = <<>> /\ depth = 0 /\ mid = {} /\ low = {}

KeyChoices(i) == IF hs[i] = hs[i+1] THEN {2 * hs[i] + 1} ELSE { 2 * k : k \in (hs[i] + 1)..hs[i+1] }
Leaves ==
  /\ phase = "leaves"
  /\ \E c \in SUBSET (1..(N - 1)) :
       /\ cuts' = c
       /\ keys' \in { f \in [c -> 0..(2 * R + 1)] : \A i \in c : f[i] \in KeyChoices(i) }
  /\ phase' = "tree"
  /\ UNCHANGED <<hs, live, depth, mid, low>>
\* Interior nodes start after the cuts in low (level just above the leaves)
\* and mid (level above that, only when depth = 2).
Tree ==
  /\ phase = "tree"
  /\ depth' \in 0..MaxDepth
  /\ low' \in IF depth' = 0 THEN {{}} ELSE SUBSET cuts
  /\ mid' \in IF depth' < 2 THEN {{}} ELSE SUBSET low'
  /\ phase' = "delete"
  /\ UNCHANGED <<hs, live, cuts, keys>>
Delete ==
  /\ phase = "delete"
  /\ live' \in [1..N -> BOOLEAN]
  /\ phase' = "ready"
  /\ UNCHANGED <<hs, cuts, keys, depth, mid, low>>

CutSeq(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m})
             IN F(S)
Done ==
  /\ phase = "ready"
  /\ Emit => PrintT("@@" \o ToJson([hs |-> hs, live |-> live, cuts |-> CutSeq(cuts),
                                    keys |-> [ i \in 1..Cardinality(cuts) |-> keys[CutSeq(cuts)[i]] ],
                                    depth |-> depth, mid |-> CutSeq(mid), low |-> CutSeq(low)]))
  /\ phase' = "done"
  /\ UNCHANGED <<hs, live, cuts, keys, depth, mid, low>>
Next == Leaves \/ Tree \/ Delete \/ Done
Spec == Init /\ [][Next]_vars

\* ---- the tree as nested nodes.  A node covers positions (lo, hi] of hs and
\* its children start after 0/lo and after the cuts of its level.
Level(l) == IF l = 0 THEN cuts ELSE IF l = 1 THEN low ELSE mid
Entries(lo, hi, l) == \* starts of the children of a node whose children are at level l
  <<lo>> \o CutSeq({ c \in Level(l) : lo < c /\ c < hi })
KeyOf(es, i) == IF i = 1 THEN 0 ELSE keys[es[i]]
LastLE(es, h) == CHOOSE i \in 1..Len(es) : KeyOf(es, i) <= h /\ \A j \in 1..Len(es) : KeyOf(es, j) <= h => j <= i
\* Positions visited by a lookup of hash h.
RECURSIVE Visit(_, _, _, _)
Visit(lo, hi, l, h) ==
  LET es == Entries(lo, hi, l)
      end(i) == IF i = Len(es) THEN hi ELSE es[i + 1]
      sel == LastLE(es, 2 * h)..LastLE(es, 2 * h + 1)
  IN UNION { IF l = 0 THEN (es[i] + 1)..end(i) ELSE Visit(es[i], end(i), l - 1, h) : i \in sel }

\* ---- properties
KeysSorted == phase \in {"ready", "done"} => \A i, j \in cuts : i < j => keys[i] <= keys[j]
\* A lookup of every hash visits every leaf that may hold it...
Complete == phase \in {"ready", "done"} => \A i \in 1..N : i \in Visit(0, N, depth, hs[i])
\* ...so lookup and listing agree: a name is found iff it is live.
Agree == phase \in {"ready", "done"} => \A i \in 1..N :
           (live[i] <=> \E j \in Visit(0, N, depth, hs[i]) : j = i /\ live[j])
=============================================================================
