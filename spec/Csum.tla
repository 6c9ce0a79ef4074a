-------------------------------- MODULE Csum --------------------------------
(* Damaged metadata is reported, never used (C07).                          *)
(* One byte of one checksummed object is damaged; an operation then walks   *)
(* through the objects it needs.  Reaching the damaged object must end the  *)
(* operation with a corruption error; an operation that never reaches it is *)
(* unaffected.  "May" objects are ones a correct implementation may or may  *)
(* not look at on the way.                                                  *)
EXTENDS StdFs, TLC, Json, SequencesExt
CONSTANTS Regions, EmitPaths
VARIABLES damage, region, op, path, pc, outcome
vars == <<damage, region, op, path, pc, outcome>>

LoadObjs == {"sb", "gd0", "gd1"}

Init == /\ damage \in Objs \cup {"none"}
        /\ region = "any" /\ op = "" /\ path = <<>> /\ pc = 0
        /\ outcome = IF damage \in LoadObjs THEN "Corrupt" ELSE "loaded"

Begin == /\ outcome = "loaded" /\ op = ""
         /\ op' \in OpNames /\ path' \in Paths
         /\ pc' = 1
         /\ UNCHANGED <<damage, region, outcome>>
Step == /\ op # "" /\ outcome = "loaded"
        /\ LET r == Run(op, path) IN
           IF pc > Len(r.steps)
           THEN outcome' = (IF r.err = "" THEN "Ok" ELSE r.err) /\ pc' = pc
           ELSE LET st == r.steps[pc] IN
                IF st.o # damage THEN pc' = pc + 1 /\ outcome' = outcome
                ELSE IF st.m THEN outcome' = "Corrupt" /\ pc' = pc
                ELSE \/ outcome' = "Corrupt" /\ pc' = pc
                     \/ pc' = pc + 1 /\ outcome' = outcome
        /\ UNCHANGED <<damage, region, op, path>>
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Verdict(d, r) == IF d \in Touched(r.steps, TRUE) THEN "fail" ELSE IF d \in Touched(r.steps, FALSE) THEN "any" ELSE "same"

VerdictSound ==
  (op # "" /\ outcome # "loaded") =>
     LET r == Run(op, path) v == Verdict(damage, r) IN
        /\ v = "fail" => outcome = "Corrupt"
        /\ v = "same" => outcome = (IF r.err = "" THEN "Ok" ELSE r.err)
NeverLost == outcome = "Corrupt" => damage # "none"
Terminates == <>[](op = "" => outcome # "loaded")

\* A readable name for a path.
RECURSIVE PStr(_)
PStr(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o PStr(Tail(p))

\* ------------------------------------------------------------- emission
OpPairs == OpNames \X EmitPaths
Runs == [x \in OpPairs |-> Run(x[1], x[2])]
Order == SetToSeq(OpPairs)
Row(d, x) == LET r == Runs[x] IN
   [op |-> x[1], path |-> PStr(x[2]), node |-> r.node, err |-> r.err, v |-> Verdict(d, r)]
Table(d) == [k \in 1..Len(Order) |-> Row(d, Order[k])]
ASSUME \A d \in Objs \cup {"none"} : \A g \in Regions :
   PrintT("@@" \o ToJson([damage |-> d, region |-> g, atload |-> d \in LoadObjs,
                          ops |-> IF d \in LoadObjs THEN <<>> ELSE Table(d)]))
=============================================================================
