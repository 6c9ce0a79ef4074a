------------------------------- MODULE StdFs -------------------------------
(* A reference filesystem with one of everything, and which checksummed     *)
(* objects each operation touches.  Shared by Csum (C07), Io (C11) and View *)
(* (C06, C17).                                                              *)
(*                                                                          *)
(* Objects: "sb", "gd" (descriptors), "I.<node>" inodes, "L.<dir>.<k>"      *)
(* directory leaf blocks, "X.<dir>" and "N.<dir>.<k>" index blocks,         *)
(* "E.<node>.<k>" extent-tree blocks.                                       *)
EXTENDS Naturals, Sequences, FiniteSets

\* ---------------------------------------------------------------- nodes
Dirs == {"root", "d", "h", "t", "b"}
Files == {"f", "g", "e", "v", "k", "x1", "x2", "x3", "y1", "y2", "y3", "z1", "z2", "z3", "z4", "w1", "w2", "w3", "w4", "w5", "w6"}
Links == {"s", "sl", "dl"}
Special == {"q"}
Nodes == Dirs \cup Files \cup Links \cup Special
TypeOf(n) == CASE n \in Dirs -> "dir" [] n \in Files -> "reg" [] n \in Links -> "lnk" [] OTHER -> "fifo"

\* Directory contents, leaf by leaf.
Leaves == [
  root |-> << <<".", "..", "d", "h", "t">>, <<"b", "f", "g", "e">>, <<"s", "sl", "dl", "q", "v", "k">> >>,
  d    |-> << <<".", "..", "x1">>, <<"x2">>, <<"x3">> >>,
  b    |-> << <<".", "..", "w1">>, <<"w2">>, <<"w3">>, <<"w4">>, <<"w5">>, <<"w6">> >>,
  h    |-> << <<"y1">>, <<"y2">>, <<"y3">> >>,
  t    |-> << <<"z1">>, <<"z2">>, <<"z3">>, <<"z4">> >> ]
Indexed == {"h", "t"}
\* Missing names of indexed directories: their hash falls in this leaf.
MissLeaf == [n1 |-> 1, n2 |-> 2, n3 |-> 3, m1 |-> 1, m2 |-> 2, m3 |-> 3, m4 |-> 4]
\* The index node above a leaf (t has two levels).
NodeOf(dir, k) == IF dir = "t" THEN {IF k <= 2 THEN "N.t.1" ELSE "N.t.2"} ELSE {}
\* Every directory is a child of the root.
Child(dir, name) == IF name = "." THEN dir ELSE IF name = ".." THEN "root" ELSE name
\* Targets: s is fast and absolute, sl slow and relative, dl dangles.
Target == [s |-> [abs |-> TRUE, comps |-> <<"f">>], sl |-> [abs |-> FALSE, comps |-> <<"d", "x2">>],
           dl |-> [abs |-> FALSE, comps |-> <<"nowhere">>]]

NumStr == <<"1", "2", "3", "4", "5", "6">>
LeafObj(dir, k) == "L." \o dir \o "." \o NumStr[k]
InodeObj(n) == "I." \o n
ExtObjs(n) == CASE n = "b" -> <<"E.b.1">> [] n = "f" -> <<"E.f.0", "E.f.1", "E.f.2">> [] OTHER -> <<>>
Objs == {"sb", "gd0", "gd1"} \cup {InodeObj(n) : n \in Nodes}
        \cup UNION {{LeafObj(n, k) : k \in 1..Len(Leaves[n])} : n \in Dirs}
        \cup {"X.h", "X.t", "N.t.1", "N.t.2", "E.b.1", "E.f.0", "E.f.1", "E.f.2"}

\* ---------------------------------------------------------------- steps
Must(o) == [o |-> o, m |-> TRUE]
May(o) == [o |-> o, m |-> FALSE]
In(q, x) == \E k \in 1..Len(q) : q[k] = x
LeafWith(dir, name) ==
   IF \E k \in 1..Len(Leaves[dir]) : In(Leaves[dir][k], name)
   THEN CHOOSE k \in 1..Len(Leaves[dir]) : In(Leaves[dir][k], name) ELSE 0
MustAll(q) == [k \in 1..Len(q) |-> Must(q[k])]

\* Looking up one name: [steps, node ("" if absent)].
Lookup(dir, name) ==
  IF dir \in Indexed THEN
     IF name \in {".", ".."} THEN [steps |-> <<Must("X." \o dir)>>, node |-> Child(dir, name)]
     ELSE LET k == IF LeafWith(dir, name) # 0 THEN LeafWith(dir, name) ELSE MissLeaf[name]
              nd == NodeOf(dir, k)
          IN [steps |-> <<Must("X." \o dir)>> \o (IF nd = {} THEN <<>> ELSE <<Must(CHOOSE x \in nd : TRUE)>>)
                        \o <<Must(LeafObj(dir, k))>>,
              node |-> IF LeafWith(dir, name) # 0 THEN name ELSE ""]
  ELSE LET k == LeafWith(dir, name)
           n == Len(Leaves[dir])
       IN [steps |-> MustAll(ExtObjs(dir)) \o
              [j \in 1..(IF k = 0 THEN n ELSE k) |-> IF k = 0 \/ j = k THEN Must(LeafObj(dir, j)) ELSE May(LeafObj(dir, j))],
           node |-> IF k = 0 THEN "" ELSE Child(dir, name)]

\* Walking: [steps, node, err].
RECURSIVE Walk(_, _, _, _, _)
Walk(cur, comps, steps, follow, fuel) ==
  IF fuel = 0 THEN [steps |-> steps, node |-> "", err |-> "TooManySymlinks"]
  ELSE IF comps = <<>> THEN [steps |-> steps, node |-> cur, err |-> ""]
  ELSE IF cur \notin Dirs THEN [steps |-> steps, node |-> "", err |-> "NotADirectory"]
  ELSE LET l == Lookup(cur, Head(comps))
           st == steps \o l.steps
       IN IF l.node = "" THEN [steps |-> st, node |-> "", err |-> "NotFound"]
          ELSE LET st2 == Append(st, Must(InodeObj(l.node)))
               IN IF l.node \in Links /\ (follow \/ Tail(comps) # <<>>)
                  THEN LET tg == Target[l.node]
                       IN IF tg.abs THEN Walk("root", tg.comps \o Tail(comps), Append(st2, Must("I.root")), follow, fuel - 1)
                          ELSE Walk(cur, tg.comps \o Tail(comps), st2, follow, fuel - 1)
                  ELSE Walk(l.node, Tail(comps), st2, follow, fuel - 1)
Resolve(path, follow) == Walk("root", path, <<Must("I.root")>>, follow, 20)

\* ---------------------------------------------------------------- operations
OpNames == {"canonicalize", "metadata", "symlink_metadata", "exists", "read", "read_to_string", "open", "head", "tail",
            "read_dir", "list_meta", "read_link"}
Follows(op) == op \notin {"symlink_metadata", "read_link"}

AllLeaves(dir) == MustAll(ExtObjs(dir)) \o
   (IF dir \in Indexed THEN <<Must("X." \o dir)>> ELSE <<>>) \o
   [k \in 1..Len(Leaves[dir]) |-> Must(LeafObj(dir, k))] \o
   (IF dir = "t" THEN <<May("N.t.1"), May("N.t.2")>> ELSE <<>>)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Entries(dir) == (IF dir \in Indexed THEN <<".", "..">> ELSE <<>>) \o Flat(Leaves[dir])

\* Body of the operation on the resolved node: [steps, err].
OkBody(st) == [steps |-> st, err |-> ""]
Fail(e) == [steps |-> <<>>, err |-> e]
NeedFile(n) == CASE n \in Dirs -> "IsADirectory" [] n \in Special -> "IsASpecialFile" [] OTHER -> ""
AllExt(n) == MustAll(ExtObjs(n))
Body(op, n) ==
  CASE op \in {"canonicalize", "metadata", "symlink_metadata", "exists"} -> OkBody(<<>>)
    [] op \in {"read", "read_to_string"} -> IF NeedFile(n) # "" THEN Fail(NeedFile(n)) ELSE OkBody(AllExt(n))
    [] op = "open" -> IF NeedFile(n) # "" THEN Fail(NeedFile(n))
                      ELSE OkBody([k \in 1..Len(ExtObjs(n)) |-> May(ExtObjs(n)[k])])
    [] op = "head" -> IF NeedFile(n) # "" THEN Fail(NeedFile(n))
                      ELSE OkBody(IF n = "f" THEN <<Must("E.f.0"), Must("E.f.1"), May("E.f.2")>> ELSE AllExt(n))
    [] op = "tail" -> IF NeedFile(n) # "" THEN Fail(NeedFile(n))
                      ELSE OkBody(IF n = "f" THEN <<Must("E.f.0"), May("E.f.1"), Must("E.f.2")>> ELSE AllExt(n))
    [] op = "read_dir" -> IF n \notin Dirs THEN Fail("NotADirectory") ELSE OkBody(AllLeaves(n))
    [] op = "list_meta" -> IF n \notin Dirs THEN Fail("NotADirectory")
          ELSE OkBody(AllLeaves(n) \o [k \in 1..Len(Entries(n)) |-> Must(InodeObj(Child(n, Entries(n)[k])))])
    [] op = "read_link" -> IF n \notin Links THEN Fail("NotASymlink") ELSE OkBody(<<>>)

Run(op, path) ==
  LET r == Resolve(path, Follows(op))
  IN IF r.err # "" THEN [steps |-> r.steps, node |-> "",
                         err |-> IF op = "exists" /\ r.err = "NotFound" THEN "" ELSE r.err]
     ELSE LET bd == Body(op, r.node)
          IN [steps |-> r.steps \o bd.steps, node |-> r.node, err |-> bd.err]

Touched(st, m) == {st[k].o : k \in {j \in 1..Len(st) : st[j].m = m}}

Paths == {<<>>, <<"d">>, <<"d", "x1">>, <<"d", "x2">>, <<"d", "x3">>, <<"d", "nx">>,
          <<"h">>, <<"h", "y1">>, <<"h", "y2">>, <<"h", "y3">>, <<"h", "n1">>, <<"h", "n2">>, <<"h", "n3">>,
          <<"t">>, <<"t", "z1">>, <<"t", "z2">>, <<"t", "z3">>, <<"t", "z4">>, <<"t", "m1">>, <<"t", "m3">>,
          <<"b">>, <<"b", "w1">>, <<"b", "w4">>, <<"b", "w6">>, <<"b", "nx">>,
          <<"f">>, <<"k">>, <<"g">>, <<"e">>, <<"s">>, <<"sl">>, <<"dl">>, <<"q">>, <<"nx">>,
          <<"d", "..", "f">>, <<"h", "..", "g">>, <<"t", ".", "z1">>, <<"g", "x">>, <<"s", "x">>}
=============================================================================
