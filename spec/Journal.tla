------------------------------ MODULE Journal ------------------------------
(* C05 / C14: the journal of a mounted filesystem, crashes, and recovery.    *)
(*                                                                           *)
(* The writer side follows jbd2: a running transaction collects metadata     *)
(* writes and revocations (a block that is freed is revoked and may then be  *)
(* written directly), a commit puts revocation, descriptor and data blocks   *)
(* into the circular log followed by a commit block, checkpointing copies    *)
(* committed blocks home, and the tail advances when the oldest transaction  *)
(* is entirely home.  A crash may happen at any time; of a transaction whose *)
(* commit block has not been written any subset of the blocks may have       *)
(* reached the log, over stale contents of earlier passes.                   *)
(*                                                                           *)
(* The reader side (Recover) is the algorithm of the library.  It must show  *)
(* exactly the effect of the committed transactions (AbsView), and if one    *)
(* log block is damaged, of the transactions preceding the damaged one.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NB, L, MaxTid, Damage, Quirk, MinLen, Emit

Blocks == 1..NB
Slots == 1..L
Junk == [t |-> "junk"]

VARIABLES home,    \* block -> version on disk at its home location
          kind,    \* block -> "meta" or "data" (freed, written directly)
          log,     \* slot -> record
          start, seq, \* journal superblock
          head,    \* next free slot
          tid,     \* id of the running transaction
          run,     \* running transaction: [w |-> block set, r |-> block set]
          ct,      \* committed transactions not yet dropped from the log
          pend,    \* records of the transaction being committed
          phase    \* "up", "commit", "done"
vars == <<home, kind, log, start, seq, head, tid, run, ct, pend, phase>>

Init ==
  /\ home = [b \in Blocks |-> 0] /\ kind = [b \in Blocks |-> "meta"]
  /\ log = [i \in Slots |-> Junk]
  /\ start = 0 /\ seq = 1 /\ head \in {1, L - 1} /\ tid = 1
  /\ run = [w |-> {}, r |-> {}] /\ ct = <<>> /\ pend = <<>> /\ phase = "up"

Slot(s, n) == ((s - 1 + n) % L) + 1
LogTail == IF ct = <<>> THEN head ELSE ct[1].first
Used == (head - LogTail + L) % L
FreeSlots == L - 1 - Used

\* ---- the running transaction
Write(b) == /\ phase = "up" /\ tid <= MaxTid /\ b \notin run.w
            /\ run' = [w |-> run.w \cup {b}, r |-> run.r \ {b}]
            /\ UNCHANGED <<home, kind, log, start, seq, head, tid, ct, pend, phase>>
Free(b) == /\ phase = "up" /\ tid <= MaxTid /\ b \notin run.r
           /\ kind[b] = "meta" \/ b \in run.w
           /\ \/ run' = [w |-> run.w \ {b}, r |-> run.r \cup {b}]
              \/ Quirk /\ b \in run.w /\ run' = [w |-> run.w, r |-> run.r \cup {b}]
           /\ UNCHANGED <<home, kind, log, start, seq, head, tid, ct, pend, phase>>
\* A block that was freed by a committed transaction is written directly.
Direct(b) == /\ phase = "up" /\ kind[b] = "data" /\ b \notin run.w /\ home[b] < 100
             /\ home' = [home EXCEPT ![b] = 100 + tid]
             /\ UNCHANGED <<kind, log, start, seq, head, tid, run, ct, pend, phase>>

\* ---- commit
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Rev(q) == [ i \in 1..Len(q) |-> q[Len(q) + 1 - i] ]
DescRecs(bs) == IF bs = <<>> THEN <<>> ELSE
  <<[t |-> "desc", tid |-> tid, tags |-> bs]>> \o [ i \in 1..Len(bs) |-> [t |-> "data", tid |-> tid, b |-> bs[i]] ]
RevRecs(S) == IF S = {} THEN <<>> ELSE <<[t |-> "rev", tid |-> tid, bs |-> Asc(S)]>>
\* One or two descriptors; revocations before or after them.
Layouts ==
  LET W == Asc(run.w) IN
  UNION { { RevRecs(run.r) \o DescRecs(SubSeq(q, 1, k)) \o DescRecs(SubSeq(q, k + 1, Len(q))),
            DescRecs(SubSeq(q, 1, k)) \o RevRecs(run.r) \o DescRecs(SubSeq(q, k + 1, Len(q))) }
          : q \in {W, Rev(W)}, k \in 0..Len(W) }
CommitStart ==
  /\ phase = "up" /\ tid <= MaxTid
  /\ \E lay \in Layouts :
       /\ Len(lay) + 1 <= FreeSlots
       /\ pend' = lay
  /\ start' = IF start = 0 THEN head ELSE start
  /\ seq' = IF start = 0 THEN tid ELSE seq
  /\ phase' = "commit"
  /\ UNCHANGED <<home, kind, log, head, tid, run, ct>>
\* The log with the pending records in S (and perhaps the commit block) written.
WithPend(S, c) ==
  [ i \in Slots |->
      LET n == ((i - head + L) % L) + 1 IN
      IF n <= Len(pend) /\ n \in S THEN pend[n]
      ELSE IF n = Len(pend) + 1 /\ c THEN [t |-> "commit", tid |-> tid]
      ELSE log[i] ]
CommitDone ==
  /\ phase = "commit"
  /\ log' = WithPend(1..Len(pend), TRUE)
  /\ ct' = Append(ct, [tid |-> tid, first |-> head, w |-> run.w, r |-> run.r])
  /\ head' = Slot(head, Len(pend) + 1)
  /\ kind' = [b \in Blocks |-> IF b \in run.r THEN "data" ELSE IF b \in run.w THEN "meta" ELSE kind[b]]
  /\ home' = [b \in Blocks |-> home[b]]
  /\ tid' = tid + 1
  /\ run' = [w |-> {}, r |-> {}] /\ pend' = <<>> /\ phase' = "up"
  /\ UNCHANGED <<start, seq>>

\* ---- what the committed transactions say
\* Newest write of b among the first n transactions that is not cancelled.
LastW(b, n) == LET S == { i \in 1..n : b \in ct[i].w /\ ~ \E j \in i..n : b \in ct[j].r } IN
               IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
AbsView(n) == [ b \in Blocks |-> IF LastW(b, n) = 0 THEN home[b] ELSE ct[LastW(b, n)].tid ]

\* ---- checkpoint
Checkpoint(b) ==
  /\ phase = "up" /\ kind[b] = "meta" /\ LastW(b, Len(ct)) # 0
  /\ home[b] # ct[LastW(b, Len(ct))].tid
  /\ home' = [home EXCEPT ![b] = ct[LastW(b, Len(ct))].tid]
  /\ UNCHANGED <<kind, log, start, seq, head, tid, run, ct, pend, phase>>
\* The oldest transaction can be dropped when every block is home, or is
\* covered by a later transaction.
Dropped(n) == \A i \in 1..n : \A b \in ct[i].w :
                \/ home[b] = AbsView(Len(ct))[b]
                \/ \E j \in (n + 1)..Len(ct) : b \in ct[j].w \cup ct[j].r
                \/ \E j \in i..n : b \in ct[j].r
TailAdvance ==
  /\ phase = "up" /\ ct # <<>>
  /\ \E n \in 1..Len(ct) :
       /\ Dropped(n)
       /\ ct' = SubSeq(ct, n + 1, Len(ct))
       /\ IF n < Len(ct) THEN start' = ct[n + 1].first /\ seq' = ct[n + 1].tid
          ELSE \/ start' = head /\ seq' = tid        \* empty log, still marked in use
               \/ start' = 0 /\ seq' = tid           \* flushed
  /\ UNCHANGED <<home, kind, log, head, tid, run, pend, phase>>

\* ---- recovery, as implemented.  `d` is the damaged slot (0: none).
Matches(lg, s, d, b, q) == s # d /\ lg[s].t = "data" /\ lg[s].tid = q /\ lg[s].b = b
RECURSIVE Tags(_, _, _, _, _, _, _)
\* Consume the data blocks of a descriptor: <<ok, slot, visited, map>>
Tags(lg, d, tags, s, n, q, m) ==
  IF tags = <<>> THEN <<TRUE, s, n, m>>
  ELSE IF n >= L \/ ~Matches(lg, s, d, tags[1], q) THEN <<FALSE, s, n, m>>
  ELSE Tags(lg, d, SubSeq(tags, 2, Len(tags)), Slot(s, 1), n + 1, q, [m EXCEPT ![tags[1]] = s])
RECURSIVE Scan(_, _, _, _, _, _, _, _)
Scan(lg, d, s, n, q, map, unc, rv) ==
  IF n >= L THEN map
  ELSE LET e == lg[s] IN
    IF s = d \/ e.t \in {"junk", "data"} THEN map
    ELSE IF e.tid # q THEN map
    ELSE IF e.t = "desc" THEN
      LET x == Tags(lg, d, e.tags, Slot(s, 1), n + 1, q, unc) IN
      IF ~x[1] THEN map ELSE Scan(lg, d, x[2], x[3], q, map, x[4], rv)
    ELSE IF e.t = "rev" THEN
      Scan(lg, d, Slot(s, 1), n + 1, q, map, unc, rv \cup { e.bs[i] : i \in 1..Len(e.bs) })
    ELSE \* commit
      LET m2 == [ b \in Blocks |-> IF b \in rv THEN 0 ELSE IF unc[b] # 0 THEN unc[b] ELSE map[b] ]
      IN Scan(lg, d, Slot(s, 1), n + 1, q + 1, m2, [b \in Blocks |-> 0], {})
Recover(lg, d) ==
  LET z == [b \in Blocks |-> 0]
      m == IF start = 0 THEN z ELSE Scan(lg, d, start, 0, seq, z, z, {})
  IN [ b \in Blocks |-> IF m[b] = 0 THEN home[b] ELSE lg[m[b]].tid ]

\* ---- ends of a behaviour
Out(lg, d, view, k) ==
  (Emit /\ (phase = "up" => run = [w |-> {}, r |-> {}])) => PrintT("@@" \o ToJson([ log |-> lg, start |-> start, seq |-> seq, home |-> home, view |-> view, dmg |-> d, kind |-> k ]))
\* (in simulation, only long histories are of interest)
Late == MinLen = 0 \/ TLCGet("level") >= MinLen
\* Crash: any subset of the pending blocks has reached the log.
Crash ==
  /\ phase \in {"up", "commit"} /\ Late
  /\ \E S \in SUBSET (1..Len(pend)) :
       /\ log' = WithPend(S, FALSE)
       /\ Assert(Recover(log', 0) = AbsView(Len(ct)), "crash recovery")
       /\ Out(log', 0, AbsView(Len(ct)), "crash")
  /\ phase' = "done"
  /\ UNCHANGED <<home, kind, start, seq, head, tid, run, ct, pend>>
\* One block of the live log is damaged.
OwnerOf(s) == \* index of the committed transaction that owns a live slot
  CHOOSE i \in 1..Len(ct) :
    LET nx == IF i = Len(ct) THEN head ELSE ct[i + 1].first
    IN (s - ct[i].first + L) % L < (nx - ct[i].first + L) % L
Damaged ==
  /\ Damage /\ phase = "up" /\ ct # <<>> /\ start # 0 /\ Late
  /\ \E s \in Slots :
       /\ (s - LogTail + L) % L < Used
       /\ LET k == OwnerOf(s) IN
          /\ Assert(Recover(log, s) = AbsView(k - 1), "damaged recovery")
          /\ Out(log, s, AbsView(k - 1), "damage")
  /\ phase' = "done"
  /\ UNCHANGED <<home, kind, log, start, seq, head, tid, run, ct, pend>>

Next == \/ \E b \in Blocks : Write(b) \/ Free(b) \/ Direct(b) \/ Checkpoint(b)
        \/ CommitStart \/ CommitDone \/ TailAdvance \/ Crash \/ Damaged
Spec == Init /\ [][Next]_vars

\* ---- properties
\* The recovered state is always that of the committed transactions.
Recovers == phase = "up" => Recover(log, 0) = AbsView(Len(ct))
\* While mounted, that state is what the writer believes is committed.
Current == \A b \in Blocks : kind[b] = "data" => AbsView(Len(ct))[b] = home[b]
=============================================================================
