--------------------------------- MODULE Many ---------------------------------
(* C06, C17: many objects, many handles, long histories.                      *)
(*                                                                            *)
(* View.tla gives the meaning of each operation; here the point is scale.     *)
(* Objects are numbered (a, b): objects with the same a are "aliases" - their *)
(* inode numbers, block numbers or names coincide under truncation, masking   *)
(* or hashing (the adapter chooses the stride).  The algorithm layer is what  *)
(* an implementation may keep between operations: a memo table of S slots,    *)
(* indexed by a modulo S and tagged with the whole key, and any number of     *)
(* handles (open files, directory iterators), each with its own position.     *)
(* Transparent: every answer is the object's own, whatever was remembered and *)
(* however many handles are alive.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS A, B, S, Targets, MaxPos, Factor, Emit

VARIABLES memo,    \* slot -> [tag, val]
          hs,      \* handles: <<a, b, pos>>, or <<>> when closed
          ans, req,
          last,    \* the last object used
          target,  \* number of handles to hold
          len, hist
vars == <<memo, hs, ans, req, last, target, len, hist>>
SimTargets == {4, 12, 40, 330}
Objs == (0..A - 1) \X (0..B - 1)
None == <<-1, -1>>
Init == /\ memo = [s \in 0..S - 1 |-> [tag |-> None, val |-> None]]
        /\ hs = <<>> /\ ans = None /\ req = None /\ last = <<0, 0>>
        /\ target \in Targets /\ len = 0 /\ hist = <<>>

Truth(o) == o
Slot(o) == o[1] % S
Live == { i \in 1..Len(hs) : hs[i] # <<>> }
\* Looking an object up goes through the memo.
Lookup(o) ==
  /\ req' = o /\ last' = o
  /\ IF memo[Slot(o)].tag = o
     THEN ans' = memo[Slot(o)].val /\ memo' = memo
     ELSE ans' = Truth(o) /\ memo' = [memo EXCEPT ![Slot(o)] = [tag |-> o, val |-> Truth(o)]]
Stat(o) == Lookup(o) /\ hs' = hs
Open(o) == Lookup(o) /\ hs' = Append(hs, <<o[1], o[2], 0>>)
\* A handle owns what it needs.
Step(i) == /\ hs[i] # <<>>
           /\ req' = <<hs[i][1], hs[i][2]>> /\ ans' = Truth(req') /\ last' = req'
           /\ hs' = [hs EXCEPT ![i][3] = IF @ < MaxPos THEN @ + 1 ELSE 0]
           /\ memo' = memo
Close(i) == /\ hs[i] # <<>> /\ hs' = [hs EXCEPT ![i] = <<>>]
            /\ UNCHANGED <<memo, ans, req, last>>

\* ---- exhaustive checking of the design on a small instance
Next == /\ len' = len + 1 /\ len < 5 /\ UNCHANGED <<target, hist>>
        /\ \/ \E o \in Objs : Stat(o) \/ (Len(hs) < target /\ Open(o))
           \/ \E i \in Live : Step(i) \/ Close(i)
Spec == Init /\ [][Next]_vars
VW == <<memo, hs, ans, req, len>>
Transparent == ans = IF req = None THEN None ELSE Truth(req)
MemoTrue == \A s \in 0..S - 1 : memo[s].tag # None => memo[s].val = Truth(memo[s].tag)
\* One handle's step changes no other handle.
Independent == [][ \A i \in 1..Len(hs) : (hs'[i] # hs[i]) => \A j \in 1..Len(hs) : j # i => hs'[j] = hs[j] ]_hs

\* ---- long histories
Pick(T) == RandomElement(T)
\* Mostly aliases and neighbours of what was just used.
Choose(x) == CASE x <= 3 -> <<last[1], Pick(0..B - 1)>>
               [] x = 4 -> <<(last[1] + S) % A, last[2]>>
               [] x = 5 -> <<(last[1] + 1) % A, last[2]>>
               [] x = 6 -> last
               [] OTHER -> <<Pick(0..A - 1), Pick(0..B - 1)>>
Total == 100 + target * Factor
GenNext ==
  IF len < Total
  THEN /\ len' = len + 1 /\ target' = target
       /\ \E x \in {RandomElement(1..9)}, k \in {RandomElement(1..100)}, c \in {Cardinality(Live)} :
          \E o \in {Choose(x)} :
          IF c = 0 \/ (c < target /\ k <= 45)
          THEN Open(o) /\ hist' = Append(hist, <<"open", o[1], o[2]>>)
          ELSE IF k <= 60
          THEN Stat(o) /\ hist' = Append(hist, <<"stat", o[1], o[2]>>)
          ELSE \E i \in {Pick(Live)} :
               IF k <= 95 \/ c < target
               THEN Step(i) /\ hist' = Append(hist, <<"step", i, 0>>)
               ELSE Close(i) /\ hist' = Append(hist, <<"close", i, 0>>)
  ELSE /\ len = Total
       /\ (Emit => PrintT("@@" \o ToJson([a |-> A, b |-> B, hist |-> hist])))
       /\ len' = len + 1 /\ UNCHANGED <<memo, hs, ans, req, last, target, hist>>
GenSpec == Init /\ [][GenNext]_vars
================================================================================
