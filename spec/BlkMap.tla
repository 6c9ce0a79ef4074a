------------------------------- MODULE BlkMap -------------------------------
(* C01: contents of a file mapped by direct and (single, double, triple)     *)
(* indirect blocks.                                                          *)
(*                                                                           *)
(* Abstract layer: a partial map from logical block to physical block;       *)
(* unmapped blocks read as zeros.                                            *)
(* Structure: PathOf(l) is where the pointer of logical block l lives.  A    *)
(* null pointer at any level makes the whole subtree a hole.                 *)
(* Algorithm layer: the iterator with one nested iterator per level          *)
(* (the implementation's BlockMap / IndirectBlockIter / Double.. / Triple..) *)
(* yields one pointer per logical block in order.                            *)
(*                                                                           *)
(* The model uses ND direct pointers and P pointers per block, small enough  *)
(* to explore exhaustively; RealPath / RealLblk place the same scenario at   *)
(* the corner slots of a real file system (12 direct pointers, RP pointers   *)
(* per block).                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS ND, P, MaxAlloc, MaxEmpty, RP, Emit

NSlots == ND + P + P*P + P*P*P
Slots == 0..(NSlots - 1)

PathOf(l) ==
  IF l < ND THEN <<l>>
  ELSE IF l < ND + P THEN <<ND, l - ND>>
  ELSE IF l < ND + P + P*P
       THEN LET k == l - ND - P IN <<ND + 1, k \div P, k % P>>
  ELSE LET k == l - ND - P - P*P IN <<ND + 2, k \div (P*P), (k \div P) % P, k % P>>

\* Paths of indirect blocks (proper, non-empty prefixes of pointer paths).
IndPaths == UNION { { SubSeq(PathOf(l), 1, n) : n \in 1..(Len(PathOf(l)) - 1) } : l \in Slots }

SubsetsUpTo(S, k) == UNION { { {f[i] : i \in DOMAIN f} : f \in [1..j -> S] } : j \in 0..k }

\* ---- placement in a real file system
Corner(i, n) == IF i = 0 THEN 0 ELSE n - 1
RealPath(p) ==
  [ i \in 1..Len(p) |->
      IF i = 1 THEN (IF p[1] < ND THEN (IF p[1] = 0 THEN 0 ELSE IF p[1] = ND - 1 THEN 11 ELSE p[1])
                     ELSE 12 + (p[1] - ND))
      ELSE Corner(p[i], RP) ]
RealLblk(l) ==
  LET r == RealPath(PathOf(l)) IN
  CASE Len(r) = 1 -> r[1]
    [] Len(r) = 2 -> 12 + r[2]
    [] Len(r) = 3 -> 12 + RP + r[2] * RP + r[3]
    [] Len(r) = 4 -> 12 + RP + RP*RP + r[2] * RP * RP + r[3] * RP + r[4]

\* ---- state
VARIABLES alloc,   \* set of mapped logical blocks
          empty,   \* indirect blocks that exist but hold only null pointers
          fsb,     \* file length in blocks
          l0, it, yielded, done, out
vars == <<alloc, empty, fsb, l0, it, yielded, done, out>>

Mapped(l) == l \in alloc
Data(l) == 1000 + l
Logical(l) == IF Mapped(l) THEN Data(l) ELSE 0
\* A file longer than the map can describe (fsb > NSlots) ends in an error there.
Reachable == IF fsb > NSlots THEN NSlots ELSE fsb
AbstractMap == [ i \in 1..Reachable |-> Logical(i - 1) ]

\* A pointer slot: null unless it leads to a mapped block or an empty
\* indirect block.
HasPrefix(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q
Present(path) ==
  \/ \E l \in alloc : HasPrefix(PathOf(l), path)
  \/ \E e \in empty : HasPrefix(e, path)
PtrData(path) == LET S == { l \in alloc : PathOf(l) = path }
                 IN IF S = {} THEN 0 ELSE Data(CHOOSE l \in S : TRUE)

Init ==
  /\ alloc \in SubsetsUpTo(Slots, MaxAlloc)
  /\ empty \in SubsetsUpTo(IndPaths, MaxEmpty)
  /\ fsb \in 0..(NSlots + 1)
  \* Nothing is allocated past the end except within one preallocated block.
  /\ \A l \in alloc : l <= fsb
  /\ l0 = 0 /\ it = <<>> /\ yielded = 0 /\ done = FALSE /\ out = <<>>

\* `it` is the stack of nested iterators: each element is [p |-> path of the
\* indirect block (or a null pointer), i |-> next index].
Depth(slot) == slot - ND + 1

EndOfFile ==
  /\ ~done /\ (yielded >= fsb \/ l0 > ND + 2)
  /\ done' = TRUE /\ UNCHANGED <<alloc, empty, fsb, l0, it, yielded, out>>
  /\ (Emit => PrintT("@@" \o ToJson(
       [fsb |-> IF fsb = 0 THEN 0 ELSE RealLblk(Reachable - 1) + 1,
        over |-> fsb > NSlots,
        rp |-> RP,
        blocks |-> { [l |-> RealLblk(l), path |-> RealPath(PathOf(l)), id |-> l] : l \in alloc },
        empty |-> { RealPath(e) : e \in empty },
        probe |-> { [l |-> RealLblk(l), id |-> IF Mapped(l) THEN l ELSE 0-1] : l \in { l \in Slots : l < fsb } }])))

Direct ==
  /\ ~done /\ yielded < fsb /\ l0 < ND
  /\ out' = Append(out, PtrData(<<l0>>))
  /\ l0' = l0 + 1 /\ yielded' = yielded + 1
  /\ UNCHANGED <<alloc, empty, fsb, it, done>>

EnterIndirect ==
  /\ ~done /\ yielded < fsb /\ l0 >= ND /\ l0 <= ND + 2 /\ it = <<>>
  /\ it' = << [p |-> <<l0>>, i |-> 0] >>
  /\ UNCHANGED <<alloc, empty, fsb, l0, yielded, done, out>>

Descend ==
  /\ ~done /\ yielded < fsb /\ it # <<>> /\ Len(it) < Depth(l0)
  /\ it[Len(it)].i < P
  /\ LET top == it[Len(it)] IN
     it' = Append(SubSeq(it, 1, Len(it) - 1) \o << [top EXCEPT !.i = @ + 1] >>,
                  [p |-> Append(top.p, top.i), i |-> 0])
  /\ UNCHANGED <<alloc, empty, fsb, l0, yielded, done, out>>

Ascend ==
  /\ ~done /\ yielded < fsb /\ it # <<>> /\ it[Len(it)].i = P
  /\ it' = SubSeq(it, 1, Len(it) - 1)
  /\ l0' = IF Len(it) = 1 THEN l0 + 1 ELSE l0
  /\ UNCHANGED <<alloc, empty, fsb, yielded, done, out>>

YieldPtr ==
  /\ ~done /\ yielded < fsb /\ it # <<>> /\ Len(it) = Depth(l0) /\ it[Len(it)].i < P
  /\ LET top == it[Len(it)] IN
     /\ out' = Append(out, IF Present(top.p) THEN PtrData(Append(top.p, top.i)) ELSE 0)
     /\ it' = SubSeq(it, 1, Len(it) - 1) \o << [top EXCEPT !.i = @ + 1] >>
  /\ yielded' = yielded + 1
  /\ UNCHANGED <<alloc, empty, fsb, l0, done>>

Next == EndOfFile \/ Direct \/ EnterIndirect \/ Descend \/ Ascend \/ YieldPtr
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Prefix == \A i \in 1..Len(out) : out[i] = Logical(i - 1)
Complete == done => out = AbstractMap
\* The pointer path of a block is unique and consecutive.
PathsDistinct == \A a, b \in Slots : a # b => PathOf(a) # PathOf(b)
ASSUME PathsDistinct
Termination == <>done
=============================================================================
