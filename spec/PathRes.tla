------------------------------ MODULE PathRes ------------------------------
(* C03: path resolution.                                                     *)
(*                                                                           *)
(* Abstract layer: Walk is the POSIX path walk over a namespace (a tree of   *)
(* directories, files and symlinks).                                         *)
(* Algorithm layer: the implementation keeps one path buffer, an index and   *)
(* the current inode, and splices symlink targets into the buffer; one       *)
(* action per loop iteration (StepDot, StepDotDot, StepSymlink, StepChild,   *)
(* ...).                                                                     *)
(* TLC checks that both agree for every namespace/path in the bounds, that   *)
(* resolution terminates, and that the buffer prefix left of the index is    *)
(* always the canonical path of the current inode.                           *)
(*                                                                           *)
(* Deliberate deviation from POSIX, fixed by the library's own tests: when   *)
(* the final symlink is not followed, a trailing slash after it does not     *)
(* make it be followed; the result is NotADirectory.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLinks, TargetComps, MaxTarget, PathComps, MaxPath, Templates, TSlash, EmitMod, Emit

Err == {"NotFound", "NotADirectory", "TooManySymlinks"}

\* ---- namespaces: node 1 is the root
\* Template A: symlinks /s and /a/s.  Template B: /s and /a/b/s.
\* Template C: /s only, and /a/s is a directory that holds a file f.
Kind(t, n) ==
  CASE n \in {1, 2, 3} -> "dir"
    [] n \in {4, 6} -> "file"
    [] n = 5 -> "sym"
    [] n = 7 -> IF t = "C" THEN "dir" ELSE "sym"
    [] n = 8 -> "file"
Parent(n) == CASE n = 1 -> 1 [] n = 2 -> 1 [] n = 3 -> 2 [] n = 7 -> 2 [] OTHER -> 1
\* Children as a set of <<name, node>>.
Kids(t, n) ==
  CASE n = 1 -> {<<"a", 2>>, <<"f", 4>>, <<"s", 5>>}
    [] n = 2 -> {<<"b", 3>>, <<"f", 6>>} \cup (IF t \in {"A", "C"} THEN {<<"s", 7>>} ELSE {})
    [] n = 3 -> IF t = "B" THEN {<<"s", 7>>} ELSE {}
    [] n = 7 -> IF t = "C" THEN {<<"f", 8>>} ELSE {}
    [] OTHER -> {}
Lookup(t, n, c) ==
  LET m == { k \in Kids(t, n) : k[1] = c } IN
  IF m = {} THEN 0 ELSE (CHOOSE k \in m : TRUE)[2]
NodeName(n) == CASE n = 2 -> "a" [] n = 3 -> "b" [] n = 7 -> "s" [] n = 5 -> "s" [] OTHER -> "f"
RECURSIVE PathTo(_, _)
\* Canonical path of a node (list of names). Node 7's parent depends on the template.
ParentOf(t, n) ==
  CASE n \in {1, 2, 4, 5} -> 1
    [] n \in {3, 6} -> 2
    [] n = 7 -> IF t = "B" THEN 3 ELSE 2
    [] n = 8 -> 7
PathTo(t, n) == IF n = 1 THEN <<>> ELSE Append(PathTo(t, ParentOf(t, n)), NodeName(n))

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, k) == IF k = 0 THEN {<<>>}
                  ELSE SeqsUpTo(S, k - 1) \cup { Append(q, x) : q \in { r \in SeqsUpTo(S, k - 1) : Len(r) = k - 1 }, x \in S }

Targets == { [abs |-> a, c |-> q, sl |-> s] :
               a \in BOOLEAN, q \in SeqsUpTo(TargetComps, MaxTarget), s \in TSlash }
ValidTarget(g) == (g.c = <<>>) => (g.abs /\ ~g.sl)
TargetSet == { g \in Targets : ValidTarget(g) }
NoTarget == [abs |-> TRUE, c |-> <<>>, sl |-> FALSE]
Namespaces == { [t |-> t, t1 |-> g1, t2 |-> g2] : t \in Templates, g1 \in TargetSet,
                g2 \in { g \in TargetSet : ~g.sl } }
NsOk(ns) == ns.t = "C" => ns.t2 = NoTarget
TargetOf(ns, n) == IF n = 5 THEN ns.t1 ELSE ns.t2

Paths == SeqsUpTo(PathComps, MaxPath)

\* ---- abstract layer: the POSIX walk
\* Result: [r |-> "Ok", n |-> node] or [r |-> error, n |-> 0]
Fail(e) == [r |-> e, n |-> 0]
RECURSIVE Walk(_, _, _, _, _, _)
Walk(ns, cur, cs, slash, all, links) ==
  IF cs = <<>>
  THEN IF slash /\ Kind(ns.t, cur) # "dir" THEN Fail("NotADirectory") ELSE [r |-> "Ok", n |-> cur]
  ELSE IF Kind(ns.t, cur) # "dir" THEN Fail("NotADirectory")
  ELSE LET c == Head(cs)  rest == Tail(cs) IN
       IF c = "." THEN Walk(ns, cur, rest, slash \/ rest = <<>>, all, links)
       ELSE IF c = ".." THEN Walk(ns, ParentOf(ns.t, cur), rest, slash, all, links)
       ELSE LET k == Lookup(ns.t, cur, c) IN
            IF k = 0 THEN Fail("NotFound")
            ELSE IF Kind(ns.t, k) = "sym" /\ (all \/ rest # <<>>)
                 THEN IF links + 1 > MaxLinks THEN Fail("TooManySymlinks")
                      ELSE LET g == TargetOf(ns, k) IN
                           Walk(ns, IF g.abs THEN 1 ELSE cur, g.c \o rest,
                                slash \/ (rest = <<>> /\ g.sl), all, links + 1)
                 ELSE Walk(ns, k, rest, slash, all, links)
Resolve(ns, cs, slash, all) == Walk(ns, 1, cs, slash, all, 0)

\* ---- algorithm layer
\* buf: components of the path buffer; idx: number of components already
\* processed; slash: buffer ends with a separator (only meaningful when
\* buf is non-empty).
VARIABLES ns, q, sl, all, buf, idx, slash, cur, links, res
vars == <<ns, q, sl, all, buf, idx, slash, cur, links, res>>
Pending == [r |-> "pending", n |-> 0]

Init ==
  /\ ns \in { x \in Namespaces : NsOk(x) }
  /\ q \in Paths /\ sl \in BOOLEAN /\ all \in BOOLEAN
  /\ (q = <<>> => ~sl)
  /\ buf = q /\ idx = 0 /\ slash = sl /\ cur = 1 /\ links = 0 /\ res = Pending
Input == <<ns, q, sl, all>>

More == res = Pending /\ idx < Len(buf)
Comp == buf[idx + 1]
Before == SubSeq(buf, 1, idx)
After == SubSeq(buf, idx + 2, Len(buf))
IsDir == Kind(ns.t, cur) = "dir"
Child == IF Comp \in {"."} THEN cur ELSE IF Comp = ".." THEN ParentOf(ns.t, cur) ELSE Lookup(ns.t, cur, Comp)

StepNotDir == /\ More /\ ~IsDir /\ res' = Fail("NotADirectory")
              /\ UNCHANGED <<Input, buf, idx, slash, cur, links>>
StepNotFound == /\ More /\ IsDir /\ Child = 0 /\ res' = Fail("NotFound")
                /\ UNCHANGED <<Input, buf, idx, slash, cur, links>>
\* Removing "." or ".." together with the separator that follows it leaves
\* the separator in front of it: the buffer then ends in a separator.
StepDot == /\ More /\ IsDir /\ Comp = "."
           /\ buf' = Before \o After
           /\ slash' = (slash \/ After = <<>>)
           /\ UNCHANGED <<Input, idx, cur, links, res>>
StepDotDot ==
  /\ More /\ IsDir /\ Comp = ".."
  /\ LET b == IF idx = 0 THEN <<>> ELSE SubSeq(buf, 1, idx - 1) IN
     /\ buf' = b \o After
     /\ idx' = Len(b)
     /\ slash' = (slash \/ After = <<>>)
  /\ cur' = Child
  /\ UNCHANGED <<Input, links, res>>
IsSym == IsDir /\ Comp \notin {".", ".."} /\ Child # 0 /\ Kind(ns.t, Child) = "sym" /\ (all \/ After # <<>>)
StepSymlink ==
  /\ More /\ IsSym
  /\ IF links + 1 > MaxLinks
     THEN /\ res' = Fail("TooManySymlinks")
          /\ UNCHANGED <<buf, idx, slash, cur, links>>
     ELSE LET g == TargetOf(ns, Child) IN
          /\ links' = links + 1
          /\ buf' = (IF g.abs THEN <<>> ELSE Before) \o g.c \o After
          /\ idx' = IF g.abs THEN 0 ELSE idx
          /\ cur' = IF g.abs THEN 1 ELSE cur
          /\ slash' = (slash \/ (After = <<>> /\ (g.sl \/ g.c = <<>>)))
          /\ UNCHANGED res
  /\ UNCHANGED Input
StepChild ==
  /\ More /\ IsDir /\ Comp \notin {".", ".."} /\ Child # 0 /\ ~IsSym
  /\ idx' = idx + 1 /\ cur' = Child
  /\ UNCHANGED <<Input, buf, slash, links, res>>
Finish ==
  /\ res = Pending /\ idx = Len(buf)
  /\ res' = IF slash /\ buf # <<>> /\ ~IsDir THEN Fail("NotADirectory") ELSE [r |-> "Ok", n |-> cur]
  /\ UNCHANGED <<Input, buf, idx, slash, cur, links>>

Next == StepNotDir \/ StepNotFound \/ StepDot \/ StepDotDot \/ StepSymlink \/ StepChild \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties
\* (PathTo of a symlink reached without following it is its own path.)
Canonical == res.r = "pending" \/ res.r # "Ok" \/ buf = PathTo(ns.t, res.n)
PrefixIsCurrent == res = Pending => Before = PathTo(ns.t, cur)
Agree == res # Pending => res = Resolve(ns, q, sl, all)
Terminates == <>(res # Pending)
\* A symlink-free path never fails with TooManySymlinks; links is bounded.
LinkBound == links <= MaxLinks

\* ---- scenario emission (one state per namespace, no steps)
CompCode(c) == CASE c = "a" -> 1 [] c = "b" -> 2 [] c = "f" -> 3 [] c = "s" -> 4 [] c = "." -> 5 [] c = ".." -> 6 [] OTHER -> 7
RECURSIVE Code(_)
Code(x) == IF x = <<>> THEN 1 ELSE (Code(SubSeq(x, 1, Len(x) - 1)) * 11 + CompCode(x[Len(x)])) % 1000003
B2(x) == IF x THEN 1 ELSE 0
NsCode(x) == (Code(x.t1.c) * 7 + Code(x.t2.c) * 13 + B2(x.t1.abs) * 3 + B2(x.t2.abs) * 5 + B2(x.t1.sl) * 17) % 1000003
Pick(x, p) == (Code(p) * 31 + NsCode(x)) % EmitMod = 0
Row(x, p, s) ==
  LET f == Resolve(x, p, s, TRUE)  n == Resolve(x, p, s, FALSE) IN
  [p |-> p, s |-> s, r |-> f.r, n |-> f.n, can |-> IF f.r = "Ok" THEN PathTo(x.t, f.n) ELSE <<>>,
   lr |-> n.r, ln |-> n.n]
EmitInit ==
  /\ ns \in { x \in Namespaces : NsOk(x) }
  /\ q = <<>> /\ sl = FALSE /\ all = FALSE
  /\ buf = <<>> /\ idx = 0 /\ slash = FALSE /\ cur = 1 /\ links = 0 /\ res = Pending
EmitStep ==
  /\ res = Pending /\ res' = [r |-> "Ok", n |-> 1]
  /\ UNCHANGED <<Input, buf, idx, slash, cur, links>>
  /\ (Emit => PrintT("@@" \o ToJson([ns |-> ns,
        rows |-> { Row(ns, p, s) : p \in { z \in Paths : Pick(ns, z) }, s \in BOOLEAN }])))
EmitSpec == EmitInit /\ [][EmitStep]_vars
=============================================================================
