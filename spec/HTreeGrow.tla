----------------------------- MODULE HTreeGrow -----------------------------
(* C04 / C16: how a hash-indexed directory comes about.                      *)
(*                                                                           *)
(* HTree.tla describes the directories a reader must cope with by their      *)
(* structure.  Here the same directories are grown by the operations of a    *)
(* writer (insert a name, delete a name), with the splitting rules of ext4:  *)
(* a full leaf is split in hash order, the new leaf's key is marked when the *)
(* cut is inside a group of equal hashes; a full index node is split in      *)
(* half, a full root gets another level below it.  Refines says that every   *)
(* state reached is a directory of HTree.tla, and Found that its descent     *)
(* finds every live name there.  Ghosts are deleted names.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS R,        \* hashes 1..R
          PerHash,  \* names per hash
          C,        \* names in a full leaf
          FR, F,    \* entries in a full root / a full index node (F > FR)
          MaxOps, OnlyLong, Emit
VARIABLES leaves,   \* sequence of [key, live, ghost], by hash
          lowc,     \* leaves below each of the lowest index nodes
          midc,     \* lowest index nodes below each of the nodes above (depth 2)
          depth, ops, done,
          pic       \* the directory in the terms of HTree.tla, once done
vars == <<leaves, lowc, midc, depth, ops, done, pic>>
ASSUME F > FR

Shown == [hs |-> <<>>]
None == [r \in 1..R |-> 0]
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Size(l) == Sum(l.live, R)
Init == /\ leaves = <<[key |-> 0, live |-> None, ghost |-> None]>>
        /\ lowc = <<1>> /\ midc = <<1>> /\ depth = 0 /\ ops = 0 /\ done = FALSE /\ pic = Shown

\* Names of a hash ever inserted.
Ever(h) == LET T == [i \in 1..Len(leaves) |-> leaves[i].live[h] + leaves[i].ghost[h]] IN Sum(T, Len(leaves))
\* The leaf a writer inserts a name with hash h into.
LeafFor(h) == CHOOSE i \in 1..Len(leaves) : leaves[i].key <= 2 * h /\ \A j \in 1..Len(leaves) : leaves[j].key <= 2 * h => j <= i
\* Which node of a level holds child i, given the children per node.
NodeOf(cs, i) == CHOOSE n \in 1..Len(cs) : Sum(cs, n - 1) < i /\ i <= Sum(cs, n)

InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
\* Split the n-th node of a level after its first half; child i of the level
\* is where a child is being added, and the half it is in grows.
SplitNode(cs, n, i) ==
  LET a == F \div 2
      left == i - Sum(cs, n - 1) <= a
  IN InsertAt([cs EXCEPT ![n] = IF left THEN a + 1 ELSE a], n + 1, IF left THEN F - a ELSE F - a + 1)
Inc(cs, n) == [cs EXCEPT ![n] = @ + 1]

\* A new leaf goes right after leaf i.
Grow(i) ==
  IF depth = 0 THEN
    /\ lowc' = Inc(lowc, 1) /\ midc' = midc
    /\ depth' = IF lowc[1] < FR THEN 0 ELSE 1
  ELSE LET j == NodeOf(lowc, i) IN
    IF lowc[j] < F THEN lowc' = Inc(lowc, j) /\ UNCHANGED <<midc, depth>>
    ELSE /\ lowc' = SplitNode(lowc, j, i)
         /\ IF depth = 1
            THEN midc' = <<Len(lowc) + 1>> /\ depth' = IF Len(lowc) < FR THEN 1 ELSE 2
            ELSE LET m == NodeOf(midc, j) IN
                 /\ depth' = 2
                 /\ IF midc[m] < F THEN midc' = Inc(midc, m)
                    ELSE Len(midc) < FR /\ midc' = SplitNode(midc, m, j)

\* Hash of the k-th live name of leaf l in hash order.
Kth(l, k) == CHOOSE r \in 1..R : Sum(l.live, r - 1) < k /\ k <= Sum(l.live, r)
Insert(h) ==
  /\ Ever(h) < PerHash
  /\ LET i == LeafFor(h)  l == leaves[i] IN
     IF Size(l) < C THEN leaves' = [leaves EXCEPT ![i].live[h] = @ + 1] /\ UNCHANGED <<lowc, midc, depth>>
     ELSE \E k \in 1..(C - 1) :      \* names that stay
       LET a == Kth(l, k)  b == Kth(l, k + 1)
           cont == a = b
           lower == [key |-> l.key,
                     live |-> [r \in 1..R |-> IF r < b THEN l.live[r] ELSE IF r = b THEN k - Sum(l.live, b - 1) ELSE 0],
                     ghost |-> [r \in 1..R |-> IF r < b \/ (r = b /\ cont) THEN l.ghost[r] ELSE 0]]
           upper == [key |-> 2 * b + (IF cont THEN 1 ELSE 0),
                     live |-> [r \in 1..R |-> l.live[r] - lower.live[r]],
                     ghost |-> [r \in 1..R |-> l.ghost[r] - lower.ghost[r]]]
           lo == IF (h >= b) THEN lower ELSE [lower EXCEPT !.live[h] = @ + 1]
           up == IF (h >= b) THEN [upper EXCEPT !.live[h] = @ + 1] ELSE upper
       IN /\ leaves' = InsertAt([leaves EXCEPT ![i] = lo], i + 1, up)
          /\ Grow(i)
Delete(i, h) ==
  /\ leaves[i].live[h] > 0
  /\ leaves' = [leaves EXCEPT ![i].live[h] = @ - 1, ![i].ghost[h] = @ + 1]
  /\ UNCHANGED <<lowc, midc, depth>>

\* ---- the directory in the terms of HTree.tla
Names(l) ==  \* hashes in order, live ones of a hash first
  LET RECURSIVE Rep(_, _)
      Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
      RECURSIVE G(_)
      G(r) == IF r > R THEN <<>> ELSE Rep([h |-> r, live |-> TRUE], l.live[r]) \o Rep([h |-> r, live |-> FALSE], l.ghost[r]) \o G(r + 1)
  IN G(1)
All == LET RECURSIVE A(_)
           A(i) == IF i > Len(leaves) THEN <<>> ELSE Names(leaves[i]) \o A(i + 1)
       IN A(1)
EndOfs == LET T == [k \in 1..Len(leaves) |-> Len(Names(leaves[k]))] IN [i \in 1..Len(leaves) |-> Sum(T, i)]
Picture ==
  LET all == All  ends == EndOfs
      cs == [i \in 1..(Len(leaves) - 1) |-> ends[i]]
      cset == {cs[i] : i \in 1..Len(cs)}
  IN [hs |-> [i \in 1..Len(all) |-> all[i].h],
      live |-> [i \in 1..Len(all) |-> all[i].live],
      cuts |-> cset,
      keys |-> [c \in cset |-> leaves[1 + CHOOSE i \in 1..Len(cs) : cs[i] = c].key],
      low |-> IF depth = 0 THEN {} ELSE {ends[Sum(lowc, n)] : n \in 1..(Len(lowc) - 1)},
      mid |-> IF depth < 2 THEN {} ELSE {ends[Sum(lowc, Sum(midc, n))] : n \in 1..(Len(midc) - 1)}]
H == INSTANCE HTree WITH phase <- "ready", MaxNames <- 99, MaxDepth <- 2, Emit <- FALSE,
       hs <- pic.hs, live <- pic.live, cuts <- pic.cuts, keys <- pic.keys, low <- pic.low, mid <- pic.mid

Done ==
  /\ ~done /\ (OnlyLong => ops = MaxOps) /\ done' = TRUE
  /\ pic' = Picture
  /\ UNCHANGED <<leaves, lowc, midc, depth, ops>>
Show ==
  /\ done /\ Emit /\ pic # Shown
  /\ PrintT("@@" \o ToJson([hs |-> pic.hs, live |-> pic.live, cuts |-> H!CutSeq(pic.cuts),
        keys |-> [i \in 1..Cardinality(pic.cuts) |-> pic.keys[H!CutSeq(pic.cuts)[i]]], depth |-> depth,
        mid |-> H!CutSeq(pic.mid), low |-> H!CutSeq(pic.low)]))
  /\ pic' = Shown
  /\ UNCHANGED <<leaves, lowc, midc, depth, ops, done>>
\* When single histories are simulated, one choice is enough.
Some(S) == IF OnlyLong /\ S # {} THEN {RandomElement(S)} ELSE S
Next == \/ /\ ~done /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<done, pic>>
           /\ \/ \E h \in Some({x \in 1..R : Ever(x) < PerHash}) : Insert(h)
              \/ /\ OnlyLong => RandomElement(1..(2 + 0 * ops)) = 1
                 /\ \E i \in Some({y \in 1..Len(leaves) : Size(leaves[y]) > 0}) :
                      \E h \in Some({x \in 1..R : leaves[i].live[x] > 0}) : Delete(i, h)
        \/ Done
        \/ Show
Spec == Init /\ [][Next]_vars

\* ---- properties
Fits == /\ \A i \in 1..Len(leaves) : Size(leaves[i]) <= C
        /\ Sum(lowc, Len(lowc)) = Len(leaves)
        /\ depth > 0 => Sum(midc, Len(midc)) = Len(lowc) /\ \A j \in 1..Len(lowc) : lowc[j] \in 1..F
        /\ depth = 2 => \A j \in 1..Len(midc) : midc[j] \in 1..F
Pictured == done /\ pic # Shown
Refines == Pictured =>
  /\ Cardinality(pic.cuts) = Len(leaves) - 1
  /\ \A i \in 1..(Len(pic.hs) - 1) : pic.hs[i] <= pic.hs[i + 1]
  /\ \A c \in pic.cuts : c \in 1..(Len(pic.hs) - 1) /\ pic.keys[c] \in H!KeyChoices(c)
  /\ pic.low \subseteq pic.cuts /\ pic.mid \subseteq pic.low
Found == Pictured => H!KeysSorted /\ H!Complete /\ H!Agree
=============================================================================
