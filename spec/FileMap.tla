------------------------------ MODULE FileMap ------------------------------
(* C01: contents of an extent-mapped file.                                   *)
(*                                                                           *)
(* Abstract layer: a file is a list of segments (hole / written data /       *)
(* preallocated-unwritten) and a length; Logical(l) is what a reader must    *)
(* see in logical block l.                                                   *)
(*                                                                           *)
(* Algorithm layer: the extent tree (any shape, depth 0..MaxDepth) is walked *)
(* with an explicit stack by NextExtent, and the block iterator turns the    *)
(* extent stream into one physical block (or 0) per logical block - the same *)
(* state machine as the implementation's Extents/ExtentsBlocks iterators.    *)
(*                                                                           *)
(* TLC checks, for every layout, tree shape and file length in the bounds,   *)
(* that the iterator yields exactly Logical(0..n-1), and emits each layout   *)
(* as a scenario for the real code.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxBlocks,   \* logical blocks covered by segments
          MaxExtra,    \* trailing blocks beyond the last segment
          MaxDepth,    \* 0..2
          Wraps,       \* pairs <<a, b>>: a one-child levels above, b below the branching ones
          Emit         \* print scenarios

Kinds == {"hole", "data", "unw"}

RECURSIVE SegLists(_)
SegLists(t) ==
  IF t = 0 THEN {<<>>}
  ELSE UNION { { Append(s, [k |-> k, n |-> n]) : s \in SegLists(t - n) } :
                 n \in 1..t, k \in Kinds }
Valid(s) == \A i \in 1..(Len(s) - 1) : ~(s[i].k = "hole" /\ s[i+1].k = "hole")
AllSegs == { s \in UNION { SegLists(t) : t \in 0..MaxBlocks } :
               /\ Valid(s)
               /\ (s # <<>> => s[Len(s)].k # "hole") }

RECURSIVE SumN(_, _)
SumN(s, i) == IF i = 0 THEN 0 ELSE s[i].n + SumN(s, i - 1)
Start(s, i) == SumN(s, i - 1)
Total(s) == SumN(s, Len(s))

\* Physical identity of block `off` of segment i.
Phys(i, off) == 100 * i + off

\* ---- abstract contents -------------------------------------------------
SegAt(s, l) == CHOOSE i \in 1..Len(s) : Start(s, i) <= l /\ l < Start(s, i) + s[i].n
Logical(s, l) ==
  IF l >= Total(s) THEN 0
  ELSE LET i == SegAt(s, l) IN
       IF s[i].k = "data" THEN Phys(i, l - Start(s, i)) ELSE 0
AbstractMap(s, n) == [ i \in 1..n |-> Logical(s, i - 1) ]

\* ---- extents and trees -------------------------------------------------
RECURSIVE ExtsFrom(_, _)
ExtsFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i].k = "hole" THEN ExtsFrom(s, i + 1)
  ELSE << [l |-> Start(s, i), n |-> s[i].n, p |-> Phys(i, 0), u |-> (s[i].k = "unw")] >>
       \o ExtsFrom(s, i + 1)
Exts(s) == ExtsFrom(s, 1)

\* All ways to cut a sequence into non-empty consecutive groups.
RECURSIVE Cuts(_)
Cuts(q) ==
  IF q = <<>> THEN {<<>>}
  ELSE UNION { { << SubSeq(q, 1, n) >> \o r : r \in Cuts(SubSeq(q, n + 1, Len(q))) }
                 : n \in 1..Len(q) }

Leaf(es) == [d |-> 0, kids |-> es]
Trees(es) ==
  {Leaf(es)}
  \cup (IF MaxDepth < 1 \/ es = <<>> THEN {}
        ELSE { [d |-> 1, kids |-> [i \in 1..Len(c) |-> Leaf(c[i])]] : c \in Cuts(es) })
  \cup (IF MaxDepth < 2 \/ es = <<>> THEN {}
        ELSE UNION { { [d |-> 2, kids |->
                          [j \in 1..Len(g) |-> [d |-> 1, kids |-> [i \in 1..Len(g[j]) |-> Leaf(g[j][i])]]]]
                        : g \in Cuts(c) } : c \in Cuts(es) })
\* Trees of more than MaxDepth levels (ext4 allows five): chains of nodes
\* with a single child above the root or above every leaf.
RECURSIVE Above(_, _), Below(_, _)
Above(t, a) == IF a = 0 THEN t ELSE Above([d |-> t.d + 1, kids |-> <<t>>], a - 1)
Below(t, b) == IF t.d = 0 THEN Above(t, b)
               ELSE [d |-> t.d + b, kids |-> [i \in 1..Len(t.kids) |-> Below(t.kids[i], b)]]
MaxTreeDepth == 5
AllTrees(es) == { t \in { Above(Below(u, w[2]), w[1]) : u \in Trees(es), w \in Wraps } : t.d <= MaxTreeDepth }
RootMax == 4
NodeMax == 84
FitsRoot(t) == Len(t.kids) <= RootMax

\* ---- state -------------------------------------------------------------
VARIABLES segs, tree, fsb,                        \* the layout
          stack, ext, bwe, hole, bwf, done, out   \* the iterators
vars == <<segs, tree, fsb, stack, ext, bwe, hole, bwf, done, out>>
Nil == [l |-> -1, n |-> 0, p |-> 0, u |-> FALSE]

Init ==
  /\ segs \in AllSegs
  /\ tree \in { t \in AllTrees(Exts(segs)) : FitsRoot(t) }
  /\ fsb \in 0..(Total(segs) + MaxExtra)
  /\ stack = << [node |-> tree, e |-> 0] >>
  /\ ext = Nil /\ bwe = 0 /\ hole = 0 /\ bwf = 0 /\ done = FALSE /\ out = <<>>

\* One step of the block iterator; fetching an extent pops/pushes the stack
\* until a leaf entry that holds written data is found (unwritten extents are
\* skipped: they read as zeros, exactly like a hole).
RECURSIVE NextExtent(_)
NextExtent(st) ==
  IF st = <<>> THEN [st |-> <<>>, x |-> Nil]
  ELSE LET top == st[Len(st)]
           e == top.e + 1
           rest == SubSeq(st, 1, Len(st) - 1)
       IN IF e > Len(top.node.kids) THEN NextExtent(rest)
          ELSE LET st2 == Append(rest, [node |-> top.node, e |-> e])
               IN IF top.node.d = 0
                  THEN IF top.node.kids[e].u THEN NextExtent(st2)
                       ELSE [st |-> st2, x |-> top.node.kids[e]]
                  ELSE NextExtent(Append(st2, [node |-> top.node.kids[e], e |-> 0]))

Layout == <<segs, tree, fsb>>

EndOfFile ==
  /\ ~done /\ bwf >= fsb
  /\ done' = TRUE
  /\ UNCHANGED <<Layout, stack, ext, bwe, hole, bwf, out>>
  /\ (Emit => PrintT("@@" \o ToJson([segs |-> segs, tree |-> tree, fsb |-> fsb,
                                      map |-> AbstractMap(segs, fsb)])))

YieldHole ==
  /\ ~done /\ bwf < fsb /\ hole > 0
  /\ hole' = hole - 1 /\ bwf' = bwf + 1 /\ out' = Append(out, 0)
  /\ UNCHANGED <<Layout, stack, ext, bwe, done>>

FetchExtent ==
  /\ ~done /\ bwf < fsb /\ hole = 0 /\ ext = Nil
  /\ LET r == NextExtent(stack) IN
     /\ stack' = r.st
     /\ ext' = r.x
     /\ bwe' = 0
     /\ hole' = IF r.x = Nil THEN fsb - bwf
                ELSE IF r.x.l > bwf THEN r.x.l - bwf ELSE 0
  /\ UNCHANGED <<Layout, bwf, done, out>>

YieldBlock ==
  /\ ~done /\ bwf < fsb /\ hole = 0 /\ ext # Nil /\ bwe < ext.n
  /\ out' = Append(out, ext.p + bwe)
  /\ bwe' = bwe + 1 /\ bwf' = bwf + 1
  /\ UNCHANGED <<Layout, stack, ext, hole, done>>

ExtentDone ==
  /\ ~done /\ bwf < fsb /\ hole = 0 /\ ext # Nil /\ bwe = ext.n
  /\ ext' = Nil
  /\ UNCHANGED <<Layout, stack, bwe, hole, bwf, done, out>>

Next == EndOfFile \/ YieldHole \/ FetchExtent \/ YieldBlock \/ ExtentDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties --------------------------------------------------------
\* Every prefix produced so far is the file's logical contents.
Prefix == \A i \in 1..Len(out) : out[i] = Logical(segs, i - 1)
Complete == done => out = AbstractMap(segs, fsb)
Position == Len(out) = bwf
Termination == <>done
NoWrap == {<<0, 0>>}
TallWraps == { <<a, b>> \in (0..5) \X (0..5) : a + b >= 3 /\ a + b <= 5 }
=============================================================================
