------------------------------ MODULE DirBlock ------------------------------
(* C16 / C04: linear directory blocks and the listing iterator.              *)
(*                                                                           *)
(* A directory is a sequence of blocks, each fully tiled by records; a block *)
(* has U units.  A record is <<units, kind>> with kind                       *)
(*   "l"  a live entry (units beyond the name are slack, which is where      *)
(*        deleted neighbours were merged),                                   *)
(*   "d"  an unused record (inode 0).                                        *)
(* The first block starts with "." and "..".                                 *)
(*                                                                           *)
(* Abstract listing: the live records in on-disk order, each once.  The      *)
(* algorithm layer is a cursor (block, record) advanced one record per step, *)
(* which is what the implementation keeps; `next` calls map to one or more   *)
(* steps.  One position may be damaged:                                      *)
(*   "io"    reading that block fails,   "csum"  its checksum is wrong,      *)
(*   "rec"   the record header is invalid, "name"/"type" the live record's   *)
(*           name or file type is invalid.                                   *)
(* The iterator must produce the entries before the damage, then one error,  *)
(* then nothing.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS U, MaxBlocks, Damage, Emit

RECURSIVE Comps(_)
Comps(n) == IF n = 0 THEN {<<>>}
            ELSE UNION { { <<[u |-> k, k |-> t]>> \o c : c \in Comps(n - k), t \in {"l", "d"} } : k \in 1..n }
\* "." is one unit, ".." takes 1..U-1 units.
FirstBlock == UNION { { <<[u |-> 1, k |-> "l"], [u |-> k, k |-> "l"]>> \o c : c \in Comps(U - 1 - k) } : k \in 1..(U - 1) }

VARIABLES blocks, bad, b, r, out, state
vars == <<blocks, bad, b, r, out, state>>

None == [kind |-> "none", b |-> 0, r |-> 0]
\* damage that can be applied to a directory
Damages(bl) ==
  {None} \cup
  (IF ~Damage THEN {} ELSE
     { [kind |-> k, b |-> i, r |-> 0] : k \in {"io", "csum"}, i \in 1..Len(bl) } \cup
     UNION { { [kind |-> k, b |-> i, r |-> j] : k \in {"rec"}, j \in 1..Len(bl[i]) } : i \in 1..Len(bl) } \cup
     UNION { { [kind |-> k, b |-> i, r |-> j] : k \in {"name", "type"}, j \in { x \in 1..Len(bl[i]) : bl[i][x].k = "l" } } : i \in 1..Len(bl) })

Init == /\ blocks \in { <<f>> : f \in FirstBlock }
        /\ bad = None
        /\ b = 1 /\ r = 1 /\ out = <<>> /\ state = "build"

Grow == /\ state = "build" /\ Len(blocks) < MaxBlocks
        /\ \E c \in Comps(U) : blocks' = Append(blocks, c)
        /\ UNCHANGED <<bad, b, r, out, state>>
Start == /\ state = "build"
         /\ bad' \in Damages(blocks)
         /\ state' = "run"
         /\ UNCHANGED <<blocks, b, r, out>>

BadHere == \/ bad.kind \in {"io", "csum"} /\ bad.b = b /\ r = 1
           \/ bad.kind \in {"rec", "name", "type"} /\ bad.b = b /\ bad.r = r

\* The iterator: one record per step.
Step ==
  /\ state = "run"
  /\ IF b > Len(blocks) THEN state' = "end" /\ UNCHANGED <<b, r, out>>
     ELSE IF BadHere THEN state' = "err" /\ UNCHANGED <<b, r, out>>
     ELSE /\ UNCHANGED state
          /\ out' = IF blocks[b][r].k = "l" THEN Append(out, <<b, r>>) ELSE out
          /\ IF r = Len(blocks[b]) THEN b' = b + 1 /\ r' = 1 ELSE b' = b /\ r' = r + 1
  /\ UNCHANGED <<blocks, bad>>
Finish ==
  /\ state \in {"end", "err"}
  /\ Emit => PrintT("@@" \o ToJson([blocks |-> blocks, bad |-> bad, out |-> out, res |-> state]))
  /\ state' = "done"
  /\ UNCHANGED <<blocks, bad, b, r, out>>
Next == Grow \/ Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- properties
Pos == { <<i, j>> : i \in 1..Len(blocks), j \in 1..U }
Live == { p \in Pos : p[2] <= Len(blocks[p[1]]) /\ blocks[p[1]][p[2]].k = "l" }
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
DamageAt == IF bad.kind = "none" THEN <<MaxBlocks + 2, 1>> ELSE <<bad.b, IF bad.r = 0 THEN 1 ELSE bad.r>>
Tiled == \A i \in 1..Len(blocks) :
           LET RECURSIVE S(_)
               S(j) == IF j = 0 THEN 0 ELSE blocks[i][j].u + S(j - 1)
           IN S(Len(blocks[i])) = U
\* When the iteration has stopped it has produced exactly the live entries
\* before the damage, in order.
Exact == state \in {"end", "err", "done"} =>
  /\ { out[i] : i \in 1..Len(out) } = { p \in Live : Before(p, DamageAt) }
  /\ \A i, j \in 1..Len(out) : i < j => Before(out[i], out[j])
ErrIffDamage == (state = "err" => bad.kind # "none") /\ (state = "end" => bad.kind = "none")
=============================================================================
