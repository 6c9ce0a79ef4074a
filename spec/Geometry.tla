----------------------------- MODULE Geometry -----------------------------
(* C10: where each inode lives and what its metadata is.                     *)
(*                                                                           *)
(* A filesystem geometry fixes the number of groups, the inodes per group,   *)
(* the inode size, the block size and the size of a group descriptor.  The   *)
(* format places inode n in group (n-1) / ipg, at slot (n-1) % ipg of that   *)
(* group's table (Where); the library computes the position from byte        *)
(* offsets (Loc).  They must agree for every inode number, and no two        *)
(* inodes may share bytes.  Descriptors are an array of dsz-byte records     *)
(* starting in the block after the superblock.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS BlockSizes, InodeSizes, DescSizes, MaxInos

VARIABLES geo, done
vars == <<geo, done>>

DescPerBlock(g) == g.bs \div g.dsz
PerBlock(g) == g.bs \div g.isz
\* Number of groups around the boundary of a descriptor block.
GroupCounts(bs, dsz) == LET p == bs \div dsz IN
  { n \in {1, 2, 3, p - 1, p, p + 1, 2 * p + 1} : n >= 1 }
Ipgs(bs, isz) == LET p == bs \div isz IN { p, 8, 3 * p, 8 * p + 8, p + 1 }

\* (in units of 128 bytes: the tables may exceed what TLC's integers hold)
TableBlocks(g) == (g.ipg * (g.isz \div 128) + (g.bs \div 128) - 1) \div (g.bs \div 128)
\* Placement of the tables relative to an (arbitrary) base block.
TableOff(g, k) ==
  CASE g.layout = "packed"   -> k * TableBlocks(g)
    [] g.layout = "reversed" -> (g.groups - 1 - k) * TableBlocks(g)
    [] g.layout = "spaced"   -> k * (TableBlocks(g) + 3)
    [] g.layout = "swapped"  -> IF k % 2 = 0 /\ k + 1 < g.groups THEN (k + 1) * TableBlocks(g)
                                ELSE IF k % 2 = 1 THEN (k - 1) * TableBlocks(g) ELSE k * TableBlocks(g)

\* Kernel: table block and slot in that block.
Where(g, n) ==
  LET k == (n - 1) \div g.ipg
      s == (n - 1) % g.ipg
  IN <<TableOff(g, k) + s \div PerBlock(g), (s % PerBlock(g)) * g.isz>>
\* Library: byte arithmetic (relative to the block base).
Loc(g, n) ==
  LET k == (n - 1) \div g.ipg
      at == ((n - 1) % g.ipg) * (g.isz \div 128)
  IN <<TableOff(g, k) + at \div (g.bs \div 128), 128 * (at % (g.bs \div 128))>>

Probes(g) ==
  LET p == DescPerBlock(g)
      gs == { k \in {0, 1, 2, p - 1, p, 2 * p, 65534, 65535, 65536, g.groups - 1} : k >= 0 /\ k < g.groups }
      is == { i \in {0, 1, PerBlock(g) - 1, PerBlock(g), g.ipg - 2, g.ipg - 1} : i >= 0 /\ i < g.ipg }
  IN { k * g.ipg + i + 1 : k \in gs, i \in is }

Types == <<"reg", "dir", "lnk", "fifo", "sock", "chr", "blk">>
Perms == <<0, 511, 4095, 2048, 1024, 512, 84, 420>>
Ids == <<"zero", "lomax", "hi", "mixed", "max">>
Sizes == <<"zero", "one", "lomax", "hi1", "hi5", "max">>
At(q, k) == q[(k % Len(q)) + 1]
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
ProbeSeq(g) ==
  LET q == Asc({ n \in Probes(g) : n > 16 })
  IN [ j \in 1..Len(q) |->
       LET h == j + g.salt IN
       [ ino |-> q[j], grp |-> (q[j] - 1) \div g.ipg, blk |-> Where(g, q[j])[1], off |-> Where(g, q[j])[2],
         ty |-> At(Types, h), perm |-> At(Perms, h * 3 + g.salt), uid |-> At(Ids, h), gid |-> At(Ids, h \div 2 + g.salt),
         size |-> At(Sizes, h + h \div 7) ] ]

Init ==
  /\ \E bs \in BlockSizes, isz \in InodeSizes, dsz \in DescSizes,
        lay \in {"packed", "reversed", "spaced", "swapped"}, csum \in BOOLEAN :
       /\ isz <= bs
       /\ \E n \in GroupCounts(bs, dsz), ipg \in Ipgs(bs, isz) :
            /\ n * ipg >= 17 /\ n * ipg <= MaxInos
            /\ geo = [bs |-> bs, isz |-> isz, dsz |-> dsz, groups |-> n, ipg |-> ipg, layout |-> lay, csum |-> csum,
                      salt |-> n + ipg + isz \div 128 + dsz \div 32]
  /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED geo
        /\ PrintT("@@" \o ToJson([ geo |-> geo, tables |-> [ k \in 1..geo.groups |-> TableOff(geo, k - 1) ], probes |-> ProbeSeq(geo) ]))
Spec == Init /\ [][Next]_vars

(* Filesystems with very many groups, or very many inodes in all: <<block size, inodes per group, groups>>.  *)
(* Only the tables of the groups near the probed inodes are given; the others are never used.              *)
WideGeos == { <<1024, 8, 65537>>, <<2048, 16, 65536>>, <<4096, 8, 70001>>, <<1024, 8192, 262143>>, <<2048, 16384, 131071>>,
              <<4096, 32768, 65535>>, <<65536, 524288, 4095>>, <<65536, 262160, 3>> }
InitWide ==
  /\ \E w \in WideGeos, isz \in InodeSizes, dsz \in DescSizes, lay \in {"packed", "reversed"}, csum \in BOOLEAN :
       /\ isz <= w[1]
       /\ (isz > 1024 <=> w[2] = 262160)   \* one inode table larger than 4 GiB
       /\ geo = [bs |-> w[1], isz |-> isz, dsz |-> dsz, groups |-> w[3], ipg |-> w[2], layout |-> lay, csum |-> csum,
                 salt |-> w[2] + isz \div 128 + dsz \div 32]
  /\ done = FALSE
Near(g) == { k \in 0..1 \cup UNION { {(n - 1) \div g.ipg - 1, (n - 1) \div g.ipg, (n - 1) \div g.ipg + 1} : n \in Probes(g) } :
               k >= 0 /\ k < g.groups }
NextWide == /\ ~done /\ done' = TRUE /\ UNCHANGED geo
            /\ PrintT("@@" \o ToJson([ geo |-> geo, near |-> [ j \in 1..Cardinality(Near(geo)) |->
                   LET k == Asc(Near(geo))[j] IN <<k, TableOff(geo, k)>> ], probes |-> ProbeSeq(geo) ]))
SpecWide == InitWide /\ [][NextWide]_vars

\* The two computations agree.
Agree == \A n \in Probes(geo) : Where(geo, n) = Loc(geo, n)
\* No two inodes overlap, and every inode is inside its own table.
Disjoint ==
  \A m, n \in Probes(geo) : m # n =>
    LET a == Loc(geo, m) b == Loc(geo, n) IN
    a[1] = b[1] => (a[2] + geo.isz <= b[2] \/ b[2] + geo.isz <= a[2])
InTable ==
  \A n \in Probes(geo) : LET k == (n - 1) \div geo.ipg IN
    Loc(geo, n)[1] >= TableOff(geo, k) /\ Loc(geo, n)[1] < TableOff(geo, k) + TableBlocks(geo)
=============================================================================
