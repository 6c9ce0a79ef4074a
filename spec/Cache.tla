-------------------------------- MODULE Cache --------------------------------
(* C06: the block cache is invisible.                                        *)
(*                                                                           *)
(* The cache as implemented: C entries in least-recently-used order, misses  *)
(* read R blocks ahead (fewer at the end of the disk) into a buffer, and a   *)
(* reader that may fail, leaving anything in that buffer.  Transparent: an   *)
(* access gives the block's own contents or reports the failure.             *)
(* (Replacement policy and read-ahead are not part of the property; only the *)
(* contents that accesses return are compared with the library.)             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS C, R, NB, MaxLen, Emit
VARIABLES ent,   \* sequence of [b, d]: block number (0: none) and whose data it holds
          buf,   \* read buffer: whose data each slot holds (0: garbage)
          out,   \* result of the last access: 0 failure, otherwise whose data
          req,   \* the last access
          hist
vars == <<ent, buf, out, req, hist>>
Blocks == 1..NB
Init == /\ ent = [i \in 1..C |-> [b |-> 0, d |-> 0]]
        /\ buf = [i \in 1..R |-> 0] /\ out = 0 /\ req = 0 /\ hist = <<>>
Min(a, b) == IF a < b THEN a ELSE b
Find(b) == IF \E i \in 1..C : ent[i].b = b THEN CHOOSE i \in 1..C : ent[i].b = b /\ \A j \in 1..(i - 1) : ent[j].b # b ELSE 0
Front(i) == <<ent[i]>> \o SubSeq(ent, 1, i - 1) \o SubSeq(ent, i + 1, C)
RECURSIVE Fill(_, _, _)
\* Insert blocks b+n-1, ..., b at the front, recycling the oldest entries.
Fill(e, b, n) == IF n = 0 THEN e ELSE Fill(<<[b |-> b + n - 1, d |-> b + n - 1]>> \o SubSeq(e, 1, C - 1), b, n - 1)
Hit(b) == /\ Find(b) # 0
          /\ ent' = Front(Find(b)) /\ out' = ent'[1].d /\ buf' = buf
Miss(b) == /\ Find(b) = 0
           /\ LET n == Min(R, NB + 1 - b) IN
              /\ buf' = [i \in 1..R |-> IF i <= n THEN b + i - 1 ELSE buf[i]]
              /\ ent' = Fill(ent, b, n)
              /\ out' = ent'[1].d
Fault(b) == /\ Find(b) = 0
            /\ LET n == Min(R, NB + 1 - b) IN buf' = [i \in 1..R |-> IF i <= n THEN 0 ELSE buf[i]]
            /\ out' = 0 /\ ent' = ent
Access(b) == req' = b /\ (Hit(b) \/ Miss(b) \/ Fault(b))
Next == (\E b \in Blocks : Access(b)) /\ hist' = hist
Spec == Init /\ [][Next]_vars

Transparent == req # 0 => out \in {0, req}
EntriesTrue == \A i \in 1..C : ent[i].b # 0 => ent[i].d = ent[i].b
\* A failure changes nothing that can be seen.
FailureInvisible == [][out' = 0 /\ req' # 0 => ent' = ent]_vars

\* Histories: mostly around the capacity, with failures.
Pick(S) == RandomElement(S)
GenNext ==
  IF Len(hist) < MaxLen
  THEN \E near \in {req # 0 /\ RandomElement(1..3) = 1} :
       \E b \in {IF near THEN Pick({x \in Blocks : x \in (req - 2)..(req + 2)}) ELSE Pick(Blocks)} :
       \E f \in {Find(b) = 0 /\ RandomElement(1..4) = 1} :
          /\ req' = b
          /\ IF f THEN Fault(b) ELSE Hit(b) \/ Miss(b)
          /\ hist' = Append(hist, [b |-> b, f |-> f])
  ELSE /\ Len(hist) = MaxLen
       /\ (Emit => PrintT("@@" \o ToJson([r |-> R, nb |-> NB, hist |-> hist])))
       /\ hist' = Append(hist, [b |-> 0, f |-> FALSE]) /\ UNCHANGED <<ent, buf, out, req>>
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
