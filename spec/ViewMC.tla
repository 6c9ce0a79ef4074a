------------------------------- MODULE ViewMC -------------------------------
(* Model checking of View on small constants, and generation of histories   *)
(* of requests (simulation) to run on the library.                          *)
EXTENDS View, Json

CONSTANTS NH, NI, NC, MCPaths, MCOps, MaxLen, Emit
VARIABLES hist
SmallPaths == {<<"f">>, <<"d">>, <<"d", "nx">>}
mvars == <<h, it, ent, cl, hist>>

\* Abstract sizes for the exhaustive exploration: every file has 2 units.
Size == 2
Res == {"Ok", "Io", "NotFound", "NotADirectory", "IsADirectory", "IsASpecialFile", "NotASymlink", "End"}

Init == InitView(NH, NI, NC) /\ hist = <<>>

\* ---- exhaustive: all observations the specification admits
MCNext ==
  /\ hist' = hist
  /\ \/ \E s \in 1..NH, c \in 1..NC, p \in MCPaths, x \in BOOLEAN, r \in Res : OpenF(s, c, p, x, r)
     \/ \E s \in 1..NH, n \in 0..Size, x \in BOOLEAN, r \in Res, k \in 0..Size : ReadF(s, Size, n, x, r, k, TRUE)
     \/ \E s \in 1..NH, to \in 0..(Size + 1), x \in BOOLEAN, r \in Res : SeekF(s, to, x, r)
     \/ \E s \in 1..NH : CloseF(s)
     \/ \E s \in 1..NI, c \in 1..NC, p \in MCPaths, x \in BOOLEAN, r \in Res : OpenI(s, c, p, x, r)
     \/ \E s \in 1..NI, x \in BOOLEAN, r \in Res, k \in 0..6 : NextI(s, x, r, k, TRUE)
     \/ \E s \in 1..NI, x \in BOOLEAN, r \in Res : MetaE(s, x, r, TRUE)
     \/ \E s \in 1..NI : CloseI(s)
     \/ \E c, d \in 1..NC : CloneC(c, d)
     \/ \E c \in 1..NC : DropC(c)
     \/ \E c \in 1..NC, o \in MCOps, p \in MCPaths, x \in BOOLEAN, r \in Res : PathOp(c, o, p, x, r, TRUE)
MCSpec == Init /\ [][MCNext]_mvars

TypeOK ==
  /\ \A s \in 1..NH : h[s] = Closed \/ (TypeOf(h[s].node) = "reg" /\ h[s].pos \in 0..(Size + 1))
  /\ \A s \in 1..NI : it[s] = NoIter \/ (it[s].dir \in Dirs /\ it[s].n \in 0..Len(Entries(it[s].dir)))
  /\ \A s \in 1..NI : ent[s] \in Nodes \cup {""}
SomeClone == \E c \in 1..NC : cl[c]
\* Every step changes at most one handle: they are independent.
Independent ==
  [][ /\ Cardinality({s \in 1..NH : h'[s] # h[s]}) + Cardinality({s \in 1..NI : it'[s] # it[s] \/ ent'[s] # ent[s]})
         + Cardinality({c \in 1..NC : cl'[c] # cl[c]}) <= 1 ]_mvars
\* Iteration only goes forward and never repeats an entry.
Forward == [][ \A s \in 1..NI : it'[s].dir = it[s].dir => it'[s].n \in {it[s].n, it[s].n + 1} ]_mvars
\* What a handle can do next depends only on its own state: a read or seek
\* that hits a failure can be repeated with the outcome it would have had.
Retry ==
  \A s \in 1..NH : h[s] # Closed =>
     /\ ENABLED ReadF(s, Size, 1, TRUE, "Io", 0, TRUE)
     /\ ENABLED ReadF(s, Size, 1, FALSE, "Ok", IF h[s].pos < Size THEN 1 ELSE 0, TRUE)
     /\ ~ENABLED ReadF(s, Size, 1, FALSE, "Io", 0, TRUE)
     /\ ~ENABLED ReadF(s, Size, 1, TRUE, "Ok", 0, TRUE)

\* ---- histories of requests
\* arm: which reader call of the operation fails ("0" none, "a" all of them)
Arms == {"0", "1", "2", "3", "a"}
Req(e, s, c, op, p, n, a) == [e |-> e, s |-> s, c |-> c, op |-> op, path |-> p, n |-> n, arm |-> a]
Push(r) == hist' = Append(hist, r)
Lens == {"0", "1", "3", "bs-1", "bs", "bs+1", "big"}
Offs == {"0", "1", "bs-1", "bs", "bs+1", "mid", "end-bs", "end-1", "end", "end+1", "last"}
Pick(S) == RandomElement(S)
\* Mostly without a fault.
RandArm(x) == IF RandomElement(1..5) <= 2 THEN Pick(Arms) ELSE "0"
GenPaths == Paths \cup {<<"v">>}
\* The model state follows the fault-free outcome: it only biases the choice.
GOpenF == \E s \in 1..NH : h[s] = Closed /\
   \E p \in {IF RandomElement(1..4) = 1 THEN Pick(GenPaths)
            ELSE Pick({<<"f">>, <<"g">>, <<"s">>, <<"v">>, <<"k">>, <<"d", "x2">>, <<"sl">>, <<"t", "z2">>, <<"b", "w4">>, <<"e">>})} :
   \E c \in {Pick({x \in 1..NC : cl[x]})} :
   LET r == Run("open", p)
   IN /\ Push(Req("open", s, c, "", p, "", RandArm(0)))
      /\ h' = IF r.err = "" THEN [h EXCEPT ![s] = [node |-> r.node, pos |-> 0]] ELSE h
      /\ UNCHANGED <<it, ent, cl>>
GReadF == \E s \in 1..NH : h[s] # Closed /\ Push(Req("read", s, 0, "", <<>>, Pick(Lens), RandArm(0))) /\ UNCHANGED vars
GSeekF == \E s \in 1..NH : h[s] # Closed /\ Push(Req("seek", s, 0, "", <<>>, Pick(Offs), RandArm(0))) /\ UNCHANGED vars
GCloseF == \E s \in 1..NH : h[s] # Closed /\ RandomElement(1..3) = 1 /\ Push(Req("close", s, 0, "", <<>>, "", "0")) /\ CloseF(s)
GOpenI == \E s \in 1..NI : it[s] = NoIter /\
   \E p \in {IF RandomElement(1..4) = 1 THEN Pick(GenPaths) ELSE Pick({<<>>, <<"d">>, <<"h">>, <<"t">>, <<"b">>})} :
   \E c \in {Pick({x \in 1..NC : cl[x]})} :
   LET r == Resolve(p, TRUE)
   IN /\ Push(Req("iter", s, c, "", p, "", RandArm(0)))
      /\ it' = IF r.err = "" /\ r.node \in Dirs THEN [it EXCEPT ![s] = [dir |-> r.node, n |-> 0, done |-> FALSE]] ELSE it
      /\ UNCHANGED <<h, ent, cl>>
GNextI == \E s \in 1..NI : it[s] # NoIter /\ Push(Req("next", s, 0, "", <<>>, "", RandArm(0))) /\ UNCHANGED vars
GMetaE == \E s \in 1..NI : it[s] # NoIter /\ Push(Req("meta", s, 0, "", <<>>, "", RandArm(0))) /\ UNCHANGED vars
GCloseI == \E s \in 1..NI : it[s] # NoIter /\ RandomElement(1..4) = 1 /\ Push(Req("drop", s, 0, "", <<>>, "", "0")) /\ CloseI(s)
GClone == \E c, d \in 1..NC : RandomElement(1..3) = 1 /\ CloneC(c, d) /\ Push(Req("clone", d, c, "", <<>>, "", "0"))
GDrop == \E c \in 1..NC : RandomElement(1..5) = 1 /\ DropC(c) /\ Push(Req("unclone", 0, c, "", <<>>, "", "0"))
GPath == \E i \in 1..2 :
   \E big \in {RandomElement(1..4) = 1} :    \* pushes everything else out of the cache
   \E op \in {IF big THEN "read" ELSE Pick(OpNames)} :
   \E p \in {IF big THEN <<"v">> ELSE Pick(GenPaths)} :
   \E c \in {Pick({x \in 1..NC : cl[x]})} :
      Push(Req("path", 0, c, op, p, "", RandArm(0))) /\ UNCHANGED vars
\* Repeat the last request without a fault: the retry.
GRetry == \E i \in 1..3 : hist # <<>> /\ hist[Len(hist)].arm # "0" /\ Push([hist[Len(hist)] EXCEPT !.arm = "0"]) /\ UNCHANGED vars
Emitted ==
  (Emit => PrintT("@@" \o ToJson([nh |-> NH, ni |-> NI, nc |-> NC, hist |-> hist,
        nodes |-> [k \in 1..MaxLen |-> LET r == hist[k] IN
                     IF r.e = "path" THEN Run(r.op, r.path).node
                     ELSE IF r.e = "open" THEN Run("open", r.path).node
                     ELSE IF r.e = "iter" THEN Resolve(r.path, TRUE).node ELSE ""]])))
GenNext ==
  IF Len(hist) < MaxLen
  THEN GOpenF \/ GReadF \/ GSeekF \/ GCloseF \/ GOpenI \/ GNextI \/ GMetaE \/ GCloseI \/ GClone \/ GDrop \/ GPath \/ GRetry
  ELSE Len(hist) = MaxLen /\ Emitted /\ hist' = Append(hist, "end") /\ UNCHANGED vars
GenSpec == Init /\ [][GenNext]_mvars
=============================================================================
