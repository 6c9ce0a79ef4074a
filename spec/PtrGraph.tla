------------------------------- MODULE PtrGraph -------------------------------
(* C08: graphs of extent-tree nodes and of directory index nodes, with       *)
(* cycles, shared nodes and wrong depths.                                    *)
(*                                                                           *)
(* Walk is the traversal of extent trees as implemented: the depth stored in *)
(* a child must be one less than its parent's and, on every level, first     *)
(* logical blocks must increase.  The first rule ends every path, the second *)
(* bounds the total work by the number of entries that exist times the depth *)
(* although nodes may be shared.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NN, MaxD, MaxK, MaxL, Ordered, Emit
VARIABLES g,      \* node -> [d, kids]; node 1 is the root, in the inode
          stack,  \* <<[n, i]>>: nodes being visited and the entry they are at
          prev,   \* level -> last first block
          work, res, built,
          seen    \* index blocks and leaves a lookup has been to
vars == <<g, stack, prev, work, res, built, seen>>
NodesG == 1..NN
Entry == [l : 0..MaxL, c : 0..NN]
Init == /\ g = [x \in NodesG |-> [d |-> 0, kids |-> <<>>]]
        /\ stack = <<>> /\ prev = [x \in 0..MaxD |-> -1] /\ work = 0 /\ res = "" /\ built = FALSE
        /\ seen = {}
SetDepth == ~built /\ \E x \in NodesG, d \in 0..MaxD : g[x].kids = <<>> /\ g[x].d = 0 /\ d > 0 /\ g' = [g EXCEPT ![x].d = d] /\ UNCHANGED <<stack, prev, work, res, built, seen>>
AddKid == ~built /\ \E x \in NodesG, e \in Entry : Len(g[x].kids) < MaxK /\ g' = [g EXCEPT ![x].kids = Append(@, e)] /\ UNCHANGED <<stack, prev, work, res, built, seen>>
Start == /\ ~built /\ built' = TRUE /\ stack' = <<[n |-> 1, i |-> 0]>>
         /\ UNCHANGED <<g, prev, work, res, seen>>
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Visit ==
  /\ built /\ res = "" /\ work' = work + 1 /\ UNCHANGED <<g, built, seen>>
  /\ IF stack = <<>> THEN res' = "Ok" /\ UNCHANGED <<stack, prev>>
     ELSE IF Top.i = Len(g[Top.n].kids) THEN stack' = Pop /\ UNCHANGED <<prev, res>>
     ELSE LET e == g[Top.n].kids[Top.i + 1]
              d == g[Top.n].d
              here == Append(Pop, [Top EXCEPT !.i = @ + 1]) IN
          IF Ordered /\ e.l <= prev[d] THEN res' = "Corrupt" /\ UNCHANGED <<stack, prev>>
          ELSE /\ prev' = [prev EXCEPT ![d] = e.l]
               /\ IF d = 0 THEN stack' = here /\ res' = res
                  ELSE IF e.c = 0 \/ g[e.c].d # d - 1 THEN res' = "Corrupt" /\ stack' = stack
                  ELSE stack' = Append(here, [n |-> e.c, i |-> 0]) /\ res' = res
\* Ladders: every entry of a node leads to the same next node.  The adapter
\* repeats the entries until the nodes are full ("fan").
Ladder(D, inc, leaf) == [x \in 1..(D + 1) |->
   [d |-> D + 1 - x, kids |-> [i \in 1..(IF x = D + 1 THEN leaf ELSE 3) |-> [l |-> IF inc THEN i - 1 ELSE 0, c |-> IF x = D + 1 THEN 1 ELSE x + 1]]]]
LadderInit == /\ seen = {}
              /\ \E D \in 1..MaxD, inc \in BOOLEAN, leaf \in {0, 3} : g = Ladder(D, inc, leaf)
              /\ stack = <<[n |-> 1, i |-> 0]>> /\ prev = [x \in 0..MaxD |-> -1] /\ work = 0 /\ res = "" /\ built = TRUE
\* The lookup of a name in a directory index whose every entry may hold its
\* hash.  The depth is stored in the root only; no block is visited twice.
DxVisit ==
  /\ built /\ res = "" /\ work' = work + 1 /\ UNCHANGED <<g, built, prev>>
  /\ IF stack = <<>> THEN res' = "NotFound" /\ UNCHANGED <<stack, seen>>
     ELSE IF Top.i = Len(g[Top.n].kids) THEN stack' = Pop /\ UNCHANGED <<res, seen>>
     ELSE LET c == g[Top.n].kids[Top.i + 1].c
              here == Append(Pop, [Top EXCEPT !.i = @ + 1]) IN
          IF c = 0 \/ (Ordered /\ c \in seen) THEN res' = "Corrupt" /\ UNCHANGED <<stack, seen>>
          ELSE /\ seen' = seen \cup {c} /\ res' = res
               /\ stack' = IF Len(stack) > g[1].d THEN here ELSE Append(here, [n |-> c, i |-> 0])
DxSpec == Init /\ [][SetDepth \/ AddKid \/ Start \/ DxVisit]_vars /\ WF_vars(DxVisit) /\ WF_vars(Start)
DxLadderSpec == LadderInit /\ [][DxVisit]_vars /\ WF_vars(DxVisit)
\* Every visited block is entered once and each of its entries seen once.
DxBounded == Ordered => work <= (NN + 1) * (MaxK + 2) + 1
DxDepth == Len(stack) <= g[1].d + 1

Next == SetDepth \/ AddKid \/ Start \/ Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Visit) /\ WF_vars(Start)
Total == (MaxD + 1) * (MaxL + 2) * 2 + 2
\* (each level sees at most MaxL + 1 entries)
Bounded == Ordered => work <= Total
Ends == <>(res # "")
DepthBounded == Len(stack) <= MaxD + 1

\* A tree that is what a filesystem would write is accepted.
RECURSIVE WfN(_, _, _)
WfN(x, lo, hi) == LET k == g[x].kids IN
   /\ \A i \in 1..Len(k) : k[i].l >= lo /\ k[i].l < hi /\ (i > 1 => k[i].l > k[i - 1].l)
   /\ g[x].d > 0 => \A i \in 1..Len(k) :
        /\ k[i].c # 0 /\ g[k[i].c].d = g[x].d - 1
        /\ g[k[i].c].kids # <<>> /\ g[k[i].c].kids[1].l = k[i].l
        /\ WfN(k[i].c, k[i].l, IF i < Len(k) THEN k[i + 1].l ELSE hi)
Wf == WfN(1, 0, MaxL + 1)
WfAccepted == res # "" /\ Wf => res = "Ok"

Pick(S) == RandomElement(S)
Emitted == (Emit => PrintT("@@" \o ToJson([nodes |-> g, wf |-> Wf])))
\* Random graphs: node x gets a depth and a number of entries.
GenNext ==
  /\ ~built
  /\ IF work < NN
     THEN \E d \in {Pick(0..MaxD)} : \E m \in {Pick(0..MaxK)} : \E sorted \in {Pick(BOOLEAN)} : \E s \in {[i \in 1..m |-> Pick(Entry)]} :
          /\ g' = [g EXCEPT ![work + 1] = [d |-> d, kids |-> [i \in 1..m |-> IF sorted THEN [s[i] EXCEPT !.l = (i - 1) * 2] ELSE s[i]]]]
          /\ work' = work + 1 /\ UNCHANGED <<stack, prev, res, built, seen>>
     ELSE built' = TRUE /\ Emitted /\ UNCHANGED <<g, stack, prev, work, res, seen>>
ASSUME Emit => \A D \in 1..5, inc \in BOOLEAN, leaf \in {0, 3} :
   PrintT("@@" \o ToJson([nodes |-> Ladder(D, inc, leaf), wf |-> FALSE, fan |-> TRUE]))
LadderSpec == LadderInit /\ [][Visit]_vars /\ WF_vars(Visit)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
