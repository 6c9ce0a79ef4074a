--------------------------------- MODULE Io ---------------------------------
(* C11 (and C06): every reader call of every operation fails once.           *)
(*                                                                           *)
(* A session loads the reference filesystem and performs an operation; both  *)
(* are sequences of reader calls, any of which may fail.  A failure ends the *)
(* step with "Io" and nothing else: repeating it gives what it would have    *)
(* given on a reader that never failed.  Mode "from" keeps the reader        *)
(* failing from the chosen call until the step ends.  Mode "short": every     *)
(* call that reaches beyond some point of the device fails (an image that    *)
(* was cut off), for each kind of reader: a device, a vector, a file.        *)
EXTENDS StdFs, TLC, Json, SequencesExt
CONSTANTS MaxCalls, EmitPaths, Modes
VARIABLES step,   \* "load" or "op"
          calls,  \* reader calls made in the step
          n,      \* how many the step makes when none fails (depends on the cache: unknown to the user)
          res,    \* result of the step: "" while running
          faults, \* failures injected so far
          op, path
vars == <<step, calls, n, res, faults, op, path>>

Expect == IF step = "load" THEN "Ok" ELSE LET r == Run(op, path) IN IF r.err = "" THEN "Ok" ELSE r.err
Init == /\ step = "load" /\ calls = 0 /\ n \in 1..MaxCalls /\ res = "" /\ faults = 0
        /\ op \in OpNames /\ path \in Paths
Read == /\ res = "" /\ calls < n
        /\ \/ calls' = calls + 1 /\ UNCHANGED <<res, faults>>
           \/ faults < 2 /\ faults' = faults + 1 /\ res' = "Io" /\ calls' = calls + 1
        /\ UNCHANGED <<step, n, op, path>>
Finish == /\ res = "" /\ calls = n /\ res' = Expect /\ UNCHANGED <<step, calls, n, faults, op, path>>
\* Retry after a failure: at most as many calls are needed again.
Again == /\ res = "Io" /\ res' = "" /\ calls' = 0 /\ n' \in 0..n /\ UNCHANGED <<step, faults, op, path>>
Proceed == /\ step = "load" /\ res = "Ok" /\ step' = "op" /\ res' = "" /\ calls' = 0 /\ n' \in 0..MaxCalls
           /\ UNCHANGED <<faults, op, path>>
Next == Read \/ Finish \/ Again \/ Proceed
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* A result is either the one of the fault-free step or the failure.
OnlyIo == res \in {"", "Io", Expect}
IoOnlyOnFault == res = "Io" => faults > 0
EventuallyTrue == <>(step = "op" /\ res = Expect)

RECURSIVE PStr(_)
PStr(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o PStr(Tail(p))
ASSUME \A m \in Modes : \A o \in OpNames : \A p \in EmitPaths :
   LET r == Run(o, p) IN
   PrintT("@@" \o ToJson([mode |-> m, op |-> o, path |-> PStr(p), node |-> r.node, err |-> r.err]))
=============================================================================
