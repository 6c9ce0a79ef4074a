------------------------------- MODULE Corrupt -------------------------------
(* C08: damaged filesystems.                                                 *)
(*                                                                           *)
(* A state is the reference filesystem (StdFs, plus a block-mapped file and  *)
(* a journal) with up to MaxMut damages.  A damage gives one on-disk field   *)
(* of one object a value from a lattice of boundary values, or replaces a    *)
(* whole object.  In every such state every operation must end, within a     *)
(* bounded number of reads and amount of memory, with a result or an error.  *)
EXTENDS StdFs, TLC, Json, SequencesExt
CONSTANTS MaxMut, Emit
VARIABLES mut, res
vars == <<mut, res>>

\* [o |-> byte offset, w |-> width]
F(o, w) == [o |-> o, w |-> w]
SbFields == {F(0, 4), F(4, 4), F(20, 4), F(24, 4), F(28, 4), F(32, 4), F(40, 4), F(56, 2), F(58, 2), F(76, 4), F(84, 4), F(88, 2),
             F(92, 4), F(96, 4), F(100, 4), F(104, 4), F(224, 4), F(236, 4), F(252, 1), F(254, 2), F(336, 4),
             F(352, 4), F(373, 1), F(624, 4), F(1020, 4)}
GdFields == {F(0, 4), F(8, 4), F(18, 2), F(28, 2), F(30, 2), F(40, 4)}
HeaderFields(b) == {F(b, 2), F(b + 2, 2), F(b + 4, 2), F(b + 6, 2)}
EntryFields(b) == {F(b, 4), F(b + 4, 2), F(b + 4, 4), F(b + 6, 2), F(b + 8, 4), F(b + 8, 2)}
\* mode, size, flags, generation, high size, extra size, and the 60 bytes of
\* block pointers, extent root or link target
InodeFields == {F(0, 2), F(4, 4), F(26, 2), F(32, 4), F(100, 4), F(108, 4), F(108, 2), F(116, 2), F(124, 2), F(128, 2), F(130, 2)}
               \cup HeaderFields(40) \cup EntryFields(52) \cup EntryFields(64)
               \cup {F(40 + 4 * k, 4) : k \in {0, 1, 11, 12, 13, 14}}
ExtFields == HeaderFields(0) \cup EntryFields(12) \cup EntryFields(24) \cup EntryFields(36)
\* Records of a leaf: the adapter maps record r to its offset; -r counts from
\* the end; "tail" is the checksum record.
RecFields == {F(0, 4), F(4, 2), F(6, 1), F(7, 1), F(8, 1), F(8, 4)}
DxRootFields == {F(0, 4), F(4, 2), F(6, 1), F(12, 4), F(16, 2), F(18, 1), F(24, 4), F(28, 1), F(29, 1), F(30, 1), F(31, 1),
                 F(32, 2), F(34, 2), F(36, 4), F(40, 4), F(44, 4), F(48, 4), F(52, 4)}
DxNodeFields == {F(0, 4), F(4, 2), F(6, 1), F(8, 2), F(10, 2), F(12, 4), F(16, 4), F(20, 4)}
PtrFields == {F(0, 4), F(4, 4), F(8, 4), F(12, 4)}
JSbFields == {F(k, 4) : k \in {0, 4, 8, 12, 16, 20, 24, 28, 36, 40, 44, 64, 252}} \cup {F(80, 1)}
JBlkFields == {F(k, 4) : k \in {0, 4, 8, 12, 16, 20, 24, 28, 32, 44, 48}} \cup {F(14, 2), F(60, 4)}

Vals == {"0", "1", "2", "3", "max", "max-1", "hi", "half", "+1", "-1", "x2", "/2", "bs", "bs-1", "bs+1", "bs-4", "bs-8", "bs-12",
         "self", "child", "other", "end", "end-1", "past", "rand", "top"}
Whole == {"zero", "ones", "rand", "copy", "shift"}

SomeInodes == {"root", "d", "h", "t", "b", "f", "g", "e", "s", "sl", "q", "x2", "z1", "k", "journal"}
Targets ==
   {[obj |-> "sb", rec |-> 0, f |-> f] : f \in SbFields}
   \cup {[obj |-> g, rec |-> 0, f |-> f] : g \in {"gd0", "gd1"}, f \in GdFields}
   \cup {[obj |-> InodeObj(n), rec |-> 0, f |-> f] : n \in SomeInodes, f \in InodeFields}
   \cup {[obj |-> e, rec |-> 0, f |-> f] : e \in {"E.b.1", "E.f.0", "E.f.1", "E.f.2"}, f \in ExtFields}
   \cup {[obj |-> LeafObj(d, k), rec |-> r, f |-> f] : d \in {"root", "d", "h", "t"}, k \in {1, 2, 3}, r \in {1, 2, 3}, f \in RecFields}
   \cup {[obj |-> LeafObj(d, k), rec |-> 9, f |-> f] : d \in {"root", "h"}, k \in {1, 2, 3}, f \in RecFields}
   \cup {[obj |-> x, rec |-> 0, f |-> f] : x \in {"X.h", "X.t"}, f \in DxRootFields}
   \cup {[obj |-> x, rec |-> 0, f |-> f] : x \in {"N.t.1", "N.t.2"}, f \in DxNodeFields}
   \cup {[obj |-> p, rec |-> 0, f |-> f] : p \in {"P.k.1", "P.k.2", "P.k.3"}, f \in PtrFields}
   \cup {[obj |-> "J.sb", rec |-> 0, f |-> f] : f \in JSbFields}
   \cup {[obj |-> j, rec |-> 0, f |-> f] : j \in {"J.1", "J.2", "J.3", "J.rev", "J.last"}, f \in JBlkFields}
   \* the last tag of a descriptor
   \cup {[obj |-> j, rec |-> 9, f |-> f] : j \in {"J.1", "J.2"}, f \in {F(0, 4), F(4, 4), F(8, 4), F(12, 4)}}
\* Fields that give the size or the number of what follows them.
SizeTargets ==
   {[obj |-> "sb", rec |-> 0, o |-> o, w |-> 2] : o \in {88, 254}}
   \cup {[obj |-> InodeObj("f"), rec |-> 0, o |-> o, w |-> 2] : o \in {128, 42, 46}}
   \cup {[obj |-> InodeObj("sl"), rec |-> 0, o |-> 4, w |-> 4]}
   \cup {[obj |-> LeafObj("d", 1), rec |-> r, o |-> o, w |-> 1] : r \in {1, 2, 3}, o \in {4, 6}}
   \cup {[obj |-> "X.h", rec |-> 0, o |-> o, w |-> 1] : o \in {29, 32, 34}}
   \cup {[obj |-> "N.t.1", rec |-> 0, o |-> o, w |-> 1] : o \in {8, 10}}
WholeObjs == {t.obj : t \in Targets}
Muts == {[obj |-> t.obj, rec |-> t.rec, o |-> t.f.o, w |-> t.f.w, v |-> v] : t \in Targets, v \in Vals}
        \cup {[obj |-> x, rec |-> 0, o |-> 0, w |-> 0, v |-> v] : x \in WholeObjs, v \in Whole}
        \* inode tables at the end of the address space, in many filesystems
        \cup {[obj |-> g, rec |-> k, o |-> 8, w |-> 4, v |-> "top"] : g \in {"gd0", "gd1"}, k \in 0..60}
        \* sizes of structures: each value around the fields they hold
        \cup {[obj |-> s.obj, rec |-> s.rec, o |-> s.o, w |-> s.w, v |-> ToString(k)] : s \in SizeTargets, k \in 4..140}
        \cup {[obj |-> "disk", rec |-> k, o |-> 0, w |-> 0, v |-> "cut"] : k \in 0..12}

Init == mut = <<>> /\ res = ""
Damage(m) == Len(mut) < MaxMut /\ res = "" /\ mut' = Append(mut, m) /\ res' = res
\* What an operation on a damaged filesystem may give.
Errors == {"NotFound", "NotADirectory", "IsADirectory", "IsASpecialFile", "NotASymlink", "FileTooLarge", "NotUtf8", "MalformedPath",
           "PathTooLong", "TooManySymlinks", "Encrypted", "Io", "Incompatible", "Corrupt"}
Operate == mut # <<>> /\ res = "" /\ res' \in {"Ok"} \cup Errors /\ mut' = mut
\* Checked with a small part of the lattice, which is otherwise only emitted.
ModelMuts == {m \in Muts : m.obj \in {"sb", "I.k"} /\ m.v \in {"0", "max", "ones"}}
Next == (\E m \in ModelMuts : Damage(m)) \/ Operate
Spec == Init /\ [][Next]_vars /\ WF_vars(Operate)
Ends == (mut # <<>>) ~> (res # "")
TypeOK == res \in {"", "Ok"} \cup Errors

Pick(S) == RandomElement(S)
Emitted(m) == (Emit => PrintT("@@" \o ToJson([muts |-> m])))
\* All single damages.
ASSUME MaxMut = 1 => \A m \in Muts : Emitted(<<m>>)
\* Random combinations; half of the time in the same object.
MutSeq == SetToSeq(Muts)
GenNext ==
  IF Len(mut) < MaxMut
  THEN \E k \in {RandomElement(1..Len(MutSeq))} : \E q \in {RandomElement(1..2)} :
         LET m == MutSeq[k] IN mut' = Append(mut, IF q = 1 \/ mut = <<>> \/ m.w = 0 THEN m ELSE [m EXCEPT !.obj = mut[1].obj]) /\ res' = ""
  ELSE res = "" /\ Emitted(mut) /\ mut' = mut /\ res' = "done"
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
