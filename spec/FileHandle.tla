----------------------------- MODULE FileHandle -----------------------------
(* C02: an open file as a state machine.                                     *)
(*                                                                           *)
(* Positions are abstract units, three per block: the first byte, the second *)
(* byte and the last byte of the block (so that a one-unit read crosses most *)
(* of a block, or just one byte).  The abstract layer is the pair (contents, *)
(* pos).  The algorithm layer is what the implementation keeps: a forward    *)
(* block iterator (`it` = next logical block it produces), the current       *)
(* block `cur` (-1: none), and `stale` (the iterator was lost to an error).  *)
(*                                                                           *)
(* Every operation may be hit by a reader failure, which must leave the      *)
(* position unchanged and the handle usable.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxBlocks, ReadLens, Faults, Emit, EmitAt

U == 3                                   \* units per block
Kinds == {"d", "h", "u"}                 \* data, hole, unwritten

VARIABLES kinds, size, pos, it, cur, stale, got, hist, last
vars == <<kinds, size, pos, it, cur, stale, got, hist, last>>
Prev == IF Len(hist) > 1 THEN LET h == hist[Len(hist) - 1] IN <<h.op, h.r, h.n = 0>> ELSE <<>>
VW == <<kinds, size, pos, it, cur, stale, last, Prev>>

NB == (size + U - 1) \div U              \* blocks needed by the file
Big == size + 1000000                    \* stands for positions far past the end
RECURSIVE KS(_)
KS(n) == IF n = 0 THEN {<<>>} ELSE { Append(k, x) : k \in KS(n - 1), x \in Kinds }
\* Contents of unit i: which block it belongs to (0 = reads as zero).
Unit(i) == IF kinds[(i \div U) + 1] = "d" THEN i + 1 ELSE 0

Init ==
  /\ kinds \in UNION { KS(n) : n \in 0..MaxBlocks }
  /\ size \in 0..(U * MaxBlocks)
  /\ NB <= Len(kinds) /\ Len(kinds) <= NB + 1   \* possibly allocated past EOF
  /\ (Len(kinds) > NB => kinds[Len(kinds)] = "d")
  /\ pos = 0 /\ it = 0 /\ cur = -1 /\ stale = FALSE /\ got = <<>> /\ hist = <<>> /\ last = "open"

Op(o) == /\ hist' = Append(hist, o)
         /\ (IF Emit /\ EmitAt = 0 THEN PrintT("@@" \o ToJson([kinds |-> kinds, size |-> size, hist |-> hist'])) ELSE TRUE)

Min(a, b) == IF a < b THEN a ELSE b

\* ---- reads.  A single call returns at most the rest of the block.
Resync == IF stale THEN pos \div U ELSE it         \* iterator after recovering
NowCur == IF ~stale /\ cur >= 0 THEN cur ELSE Resync
Avail(n) == Min(Min(n, size - pos), U - (pos % U))
ReadOk(n) ==
  /\ IF n = 0 \/ pos >= size
     THEN got' = <<>> /\ UNCHANGED <<pos, it, cur, stale>>
     ELSE LET k == Avail(n) IN
          /\ got' = [ j \in 1..k |-> IF kinds[NowCur + 1] = "d" THEN NowCur * U + ((pos + j - 1) % U) + 1 ELSE 0 ]
          /\ pos' = pos + k
          /\ stale' = FALSE
          /\ it' = IF ~stale /\ cur >= 0 THEN it ELSE Resync + 1
          /\ cur' = IF (pos + k) % U = 0 THEN -1 ELSE NowCur
  /\ last' = "read"
  /\ Op([op |-> "read", n |-> n, to |-> IF n = 0 \/ pos >= size THEN pos ELSE pos + Avail(n), r |-> "ok"])
  /\ UNCHANGED <<kinds, size>>
\* The reader fails: while the iterator fetches the block, or afterwards.
ReadFault(n) ==
  /\ Faults /\ n > 0 /\ pos < size
  /\ got' = <<>>
  /\ \/ cur = -1 /\ stale' = TRUE /\ UNCHANGED <<it, cur>>          \* block iterator
     \/ kinds[NowCur + 1] = "d" /\ stale' = FALSE                    \* data block
        /\ it' = (IF ~stale /\ cur >= 0 THEN it ELSE Resync + 1) /\ cur' = NowCur
  /\ last' = "fault"
  /\ Op([op |-> "read", n |-> n, to |-> pos, r |-> "fault"])
  /\ UNCHANGED <<kinds, size, pos>>

\* ---- seeks
Land(p) == /\ pos' = p /\ cur' = -1 /\ stale' = FALSE
           /\ it' = IF p < size THEN p \div U ELSE 0
SeekOk(p, how, off) ==
  /\ Land(p) /\ got' = <<>> /\ last' = how
  /\ Op([op |-> how, n |-> off, to |-> p, r |-> "ok"])
  /\ UNCHANGED <<kinds, size>>
SeekBad(how, off) ==
  /\ got' = <<>> /\ last' = "bad"
  /\ Op([op |-> how, n |-> off, to |-> pos, r |-> "bad"])
  /\ UNCHANGED <<kinds, size, pos, it, cur, stale>>
SeekFault(p) ==
  /\ Faults /\ p < size
  /\ stale' = TRUE /\ cur' = -1 /\ it' = 0 /\ got' = <<>> /\ last' = "fault"
  /\ Op([op |-> "start", n |-> p, to |-> pos, r |-> "fault"])
  /\ UNCHANGED <<kinds, size, pos>>

Deltas == {-4, -3, -1, 0, 1, 2, 3}
SeekStart == \E p \in (0..(size + 1)) \cup {Big} : SeekOk(p, "start", p)
SeekStartFault == \E p \in 0..size : SeekFault(p)
SeekCur == \E d \in { x \in Deltas : pos + x <= size + 3 } : IF pos + d >= 0 THEN SeekOk(pos + d, "cur", d) ELSE SeekBad("cur", d)
SeekEnd == \E d \in { x \in Deltas : x <= 3 } : IF size + d >= 0 THEN SeekOk(size + d, "end", d) ELSE SeekBad("end", d)
\* The sum lies beyond every representable position.
SeekCurFar == pos > 0 /\ SeekBad("cur", Big)
SeekEndFar == size > 0 /\ SeekBad("end", Big)
\* A relative seek starting from a position that no signed offset describes:
\* the call may refuse or be exact; here it stays.
SeekFree == /\ got' = <<>> /\ last' = "bad"
            /\ Op([op |-> "cur", n |-> 0, to |-> pos, r |-> "free"])
            /\ UNCHANGED <<kinds, size, pos, it, cur, stale>>
ReadAny == \E n \in ReadLens : ReadOk(n)
ReadAnyFault == \E n \in ReadLens : ReadFault(n)
\* A far position is left again by an absolute seek only.
Near == pos < Big
Step == \/ (Near /\ (ReadAny \/ ReadAnyFault \/ SeekCur \/ SeekEnd \/ SeekStart \/ SeekStartFault \/ SeekCurFar \/ SeekEndFar))
        \/ (~Near /\ (SeekStart \/ ReadOk(1) \/ SeekEnd \/ SeekFree \/ SeekCurFar))
\* Simulation mode: print the whole history once it has EmitAt steps.
End == /\ EmitAt # 0 /\ Len(hist) = EmitAt /\ last # "end" /\ last' = "end"
       /\ PrintT("@@" \o ToJson([kinds |-> kinds, size |-> size, hist |-> hist]))
       /\ UNCHANGED <<kinds, size, pos, it, cur, stale, got, hist>>
Next == \/ End
        \/ ((EmitAt = 0 \/ Len(hist) < EmitAt) /\ Step)
Spec == Init /\ [][Next]_vars

\* ---- properties
\* The handle's hidden state is a function of the position: whatever the
\* history, the next byte comes from block pos \div U.
InSync == (~stale /\ pos < size) =>
            IF cur >= 0 THEN cur = pos \div U /\ it = cur + 1 ELSE it = pos \div U
\* Every read returns exactly the contents at the old position.
ReadsContents ==
  [][ (last' = "read" /\ hist' # hist) =>
        /\ got' = [ j \in 1..(pos' - pos) |-> Unit(pos + j - 1) ]
        /\ (pos' = pos => (pos >= size \/ hist'[Len(hist')].n = 0)) ]_vars
\* Failed operations do not move.
FailuresStay == [][ last' \in {"fault", "bad"} => pos' = pos ]_vars
=============================================================================
