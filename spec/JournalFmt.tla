---------------------------- MODULE JournalFmt ----------------------------
(* C05 / C14: which journals are applied, and the capacity boundaries of     *)
(* descriptor and revocation blocks.                                         *)
(*                                                                           *)
(* A log holds two transactions: the first writes N blocks, the second       *)
(* revokes the first M of them and writes block N + 1.  N and M are chosen   *)
(* at the boundaries of what one descriptor or revocation block holds.  The  *)
(* journal superblock deviates from the supported form in at most one way.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS TagCap, RevCap  \* abstract capacities of one block

VARIABLES nw, nr, uuid, revpos, dev, recover, esc, dup, startat, done
vars == <<nw, nr, uuid, revpos, dev, recover, esc, dup, startat, done>>

Devs == { "none", "norevoke", "no64", "nocsum", "csumv2", "async", "fastcommit", "unknown",
          "v1", "csumtype", "sbsum", "jbs", "magic", "compat" }
\* The outcome of loading.
Outcome ==
  IF ~recover THEN "clean"
  ELSE IF dev \in {"magic", "sbsum", "jbs"} THEN "corrupt"
  ELSE IF dev \in Devs \ {"none", "norevoke", "compat"} THEN "incompatible"
  ELSE IF startat = "empty" THEN "empty"
  ELSE IF esc # 0 THEN "incompatible"
  ELSE "applied"
\* Version of block i afterwards (0: home).
View(i) == IF Outcome # "applied" THEN 0
           ELSE IF i = nw + 1 THEN 2
           ELSE IF i <= nr THEN 0 ELSE 1
Init ==
  /\ nw \in {1, 2, TagCap - 1, TagCap, TagCap + 1, 2 * TagCap, 2 * TagCap + 1}
  /\ nr \in {0, 1, RevCap - 1, RevCap, RevCap + 1}
  /\ nr <= nw
  /\ uuid \in {"first", "none", "every"}
  /\ revpos \in {"before", "after"}
  /\ dev \in Devs
  /\ recover \in BOOLEAN
  /\ esc \in 0..2          \* transaction with an escaped block
  \* an older copy of block 1 earlier in the first transaction
  /\ dup \in {"none", "same", "split"}
  \* where the log starts; "empty": nowhere, what lies there is stale
  /\ startat \in {"first", "middle", "last", "empty"}
  /\ startat = "empty" => nw \in {1, 2} /\ uuid = "first" /\ dup = "none"
  \* one special aspect at a time
  /\ dev # "none" => nw = 2 /\ nr \in {0, 1} /\ uuid = "first" /\ revpos = "before" /\ esc = 0
  /\ dev = "norevoke" => nr = 0
  /\ ~recover => nw <= TagCap /\ uuid = "first" /\ esc = 0
  /\ esc # 0 => nw \in {1, 2, TagCap} /\ nr <= 1
  /\ dup # "none" => dev = "none" /\ recover /\ esc = 0 /\ nw \in {1, 2, TagCap - 1, TagCap}
  /\ done = FALSE
Next ==
  /\ ~done /\ done' = TRUE
  /\ PrintT("@@" \o ToJson([ nw |-> nw - TagCap * (nw \div TagCap), wblk |-> nw \div TagCap,
       nr |-> nr - RevCap * (nr \div RevCap), rblk |-> nr \div RevCap,
       tcap |-> TagCap, rcap |-> RevCap,
       uuid |-> uuid, revpos |-> revpos, dev |-> dev, recover |-> recover, esc |-> esc, dup |-> dup, startat |-> startat,
       outcome |-> Outcome,
       keep |-> Cardinality({ i \in 1..nw : View(i) = 1 }), last |-> View(nw + 1) ]))
  /\ UNCHANGED <<nw, nr, uuid, revpos, dev, recover, esc, dup, startat>>
Spec == Init /\ [][Next]_vars
\* Refusal is all or nothing.
AllOrNothing == Outcome # "applied" => \A i \in 1..(nw + 1) : View(i) = 0
NewestWins == Outcome = "applied" => View(nw + 1) = 2 /\ (nr = 0 => \A i \in 1..nw : View(i) = 1)
=============================================================================
