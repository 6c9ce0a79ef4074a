-------------------------------- MODULE Load --------------------------------
(* Which filesystems are accepted (C09).                                    *)
(* The state is an abstract superblock together with its group descriptors; *)
(* a behaviour starts from a valid filesystem and applies a few deviations. *)
(* Verdict says which results loading may give in every state reached.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDev, Bases, Emit
VARIABLES base, sb, devs
vars == <<base, sb, devs>>

\* Feature bit numbers.
IncFILETYPE == 1
IncRECOVER == 2
IncEXTENTS == 6
Inc64BIT == 7
IncCSUMSEED == 13
RoGDTCSUM == 4
RoMETACSUM == 10
CoJOURNAL == 2
Required == {IncFILETYPE}
\* compression, journal device, meta_bg, mmp, ea_inode, dirdata, large_dir, inline_data
Disallowed == {0, 3, 4, 8, 10, 12, 14, 15}
Allowed == {IncFILETYPE, IncRECOVER, IncEXTENTS, Inc64BIT, 9 (* flex_bg *), IncCSUMSEED, 16 (* encrypt *)}
Unknown == (0..31) \ (Disallowed \cup Allowed)
ASSUME Disallowed \cap Allowed = {}

\* A base filesystem: block size, 64-bit, checksums, descriptor checksums, seed.
BaseOf == [
  b1 |-> [bs |-> 1024,  is64 |-> TRUE,  csum |-> TRUE,  gdt |-> FALSE, seed |-> TRUE, jrn |-> FALSE],
  b2 |-> [bs |-> 4096,  is64 |-> TRUE,  csum |-> FALSE, gdt |-> TRUE,  seed |-> FALSE, jrn |-> FALSE],
  b3 |-> [bs |-> 4096,  is64 |-> FALSE, csum |-> TRUE,  gdt |-> FALSE, seed |-> FALSE, jrn |-> FALSE],
  b4 |-> [bs |-> 1024,  is64 |-> FALSE, csum |-> FALSE, gdt |-> FALSE, seed |-> FALSE, jrn |-> FALSE],
  b5 |-> [bs |-> 65536, is64 |-> TRUE,  csum |-> TRUE,  gdt |-> FALSE, seed |-> FALSE, jrn |-> FALSE],
  b6 |-> [bs |-> 2048,  is64 |-> TRUE,  csum |-> FALSE, gdt |-> FALSE, seed |-> TRUE, jrn |-> FALSE],
  b7 |-> [bs |-> 4096,  is64 |-> TRUE,  csum |-> TRUE,  gdt |-> FALSE, seed |-> FALSE, jrn |-> TRUE],
  b8 |-> [bs |-> 1024,  is64 |-> FALSE, csum |-> FALSE, gdt |-> FALSE, seed |-> FALSE, jrn |-> TRUE] ]

SbOf(x) == [
  magic |-> "ok", bs |-> "ok", fdb |-> "ok", bpg |-> "ok", ipg |-> "ok", groups |-> "ok", isz |-> "ok", dsz |-> "ok",
  inc |-> {IncFILETYPE, IncEXTENTS, 9} \cup (IF x.is64 THEN {Inc64BIT} ELSE {}) \cup (IF x.seed THEN {IncCSUMSEED} ELSE {})
         \cup (IF x.jrn THEN {IncRECOVER} ELSE {}),
  ro |-> {0, 1, 3, 5, 6} \cup (IF x.csum THEN {RoMETACSUM} ELSE {}) \cup (IF x.gdt THEN {RoGDTCSUM} ELSE {}),
  co |-> {3, 5} \cup (IF x.jrn THEN {CoJOURNAL} ELSE {}), sum |-> "ok", gd |-> "ok", jnum |-> "ok" ]

\* The fields a deviation may touch and the values it may give them.
Variants(x) == [
  magic  |-> {"zero", "swap", "bit", "minus1"},
  bs     |-> {"log7", "log8", "log21", "log22", "max"},
  fdb    |-> {"over1", "max"},
  bpg    |-> {"zero"},
  ipg    |-> {"zero"},
  groups |-> {"hi", "exact"},
  isz    |-> IF x.bs = 65536 THEN {} ELSE {"over1", "double", "max"},
  dsz    |-> {"zero", "one", "32", "63"} \cup (IF x.is64 THEN {} ELSE {"64", "max"}),
  sum    |-> {"field", "early", "late"},
  gd     |-> {"field0", "fieldN", "body0", "bodyN"},
  jnum   |-> {"zero"},
  misc   |-> {"state", "rev", "times", "quota", "backup"}
             \* Valid inode sizes, up to one inode per block.
             \cup {"inode128", "inodehalf"} \cup (IF x.bs = 65536 THEN {} ELSE {"inodeblock"}) ]
\* Bits that are part of the base are not flipped: they change the layout.
IncFlips == (0..31) \ {Inc64BIT, IncCSUMSEED}
RoFlips == (0..31) \ {RoMETACSUM}
CoFlips == 0..31

Simple == {"magic", "bs", "fdb", "bpg", "ipg", "groups", "isz", "dsz", "sum", "gd", "jnum", "misc"}
Devs(x) ==
   UNION {{[f |-> f, v |-> v, bit |-> 0] : v \in Variants(x)[f]} : f \in Simple}
   \cup {[f |-> "inc", v |-> "", bit |-> b] : b \in IncFlips}
   \cup {[f |-> "ro", v |-> "", bit |-> b] : b \in RoFlips}
   \cup {[f |-> "co", v |-> "", bit |-> b] : b \in CoFlips}

Flip(S, b) == IF b \in S THEN S \ {b} ELSE S \cup {b}
Apply(q, d) ==
   CASE d.f = "inc" -> [q EXCEPT !.inc = Flip(@, d.bit)]
     [] d.f = "ro"  -> [q EXCEPT !.ro = Flip(@, d.bit)]
     [] d.f = "co"  -> [q EXCEPT !.co = Flip(@, d.bit)]
     [] d.f = "misc" -> q
     [] OTHER -> [q EXCEPT ![d.f] = d.v]

\* A total order on deviations so that each set is applied once.
FieldNo == [magic |-> 1, bs |-> 2, fdb |-> 3, bpg |-> 4, ipg |-> 5, groups |-> 6, isz |-> 7, dsz |-> 8, sum |-> 9,
            gd |-> 10, jnum |-> 11, misc |-> 12, inc |-> 13, ro |-> 14, co |-> 15]
Key(d) == FieldNo[d.f] * 100 + d.bit
\* Deviations of one field replace each other; two geometry deviations that
\* are defined relative to each other are not combined.
Together(a, b) ==
   /\ Key(a) < Key(b)
   /\ ~(a.f \in {"fdb", "bpg", "groups"} /\ b.f \in {"fdb", "bpg", "groups"})

Init == base \in Bases /\ sb = SbOf(BaseOf[base]) /\ devs = <<>>
Next ==
   /\ Len(devs) < MaxDev
   /\ \E d \in Devs(BaseOf[base]) :
        /\ \A k \in 1..Len(devs) : Together(devs[k], d)
        /\ devs' = Append(devs, d)
        /\ sb' = Apply(sb, d)
   /\ UNCHANGED base
Spec == Init /\ [][Next]_vars

HasCsum == RoMETACSUM \in sb.ro
UsesJournal == CoJOURNAL \in sb.co /\ IncRECOVER \in sb.inc
Corrupt ==
   \/ sb.magic # "ok" \/ sb.bs # "ok" \/ sb.fdb # "ok" \/ sb.bpg # "ok" \/ sb.ipg # "ok" \/ sb.groups # "ok"
   \/ sb.isz # "ok"
   \/ Inc64BIT \in sb.inc /\ sb.dsz # "ok"
   \/ HasCsum /\ (sb.sum # "ok" \/ sb.gd # "ok")
   \/ UsesJournal /\ sb.jnum = "zero"
Incompatible == ~(Required \subseteq sb.inc) \/ sb.inc \cap (Disallowed \cup Unknown) # {}
Verdict ==
   LET e == (IF Corrupt THEN {"Corrupt"} ELSE {}) \cup (IF Incompatible THEN {"Incompatible"} ELSE {})
   IN IF e = {} THEN {"Ok"} ELSE e

\* Compatible and read-only-compatible bits never matter, except that the
\* journal bit selects the journal.
CompatNeverPrevents ==
   (\A k \in 1..Len(devs) : devs[k].f \in {"co", "ro", "misc"}) => Verdict = {"Ok"}
IncompatDecides ==
   (\A k \in 1..Len(devs) : devs[k].f = "inc" /\ devs[k].bit \notin {IncRECOVER}) =>
      (Verdict = {"Ok"}) = (\A k \in 1..Len(devs) : devs[k].bit \in Allowed \ Required)
\* Without checksums nothing depends on the checksum fields.
ChecksumsOnlyWhenEnabled ==
   (~HasCsum /\ \A k \in 1..Len(devs) : devs[k].f \in {"sum", "gd"}) => Verdict = {"Ok"}

EmitInv == IF Emit
   THEN PrintT("@@" \o ToJson([base |-> BaseOf[base], devs |-> devs, verdict |-> Verdict, journal |-> UsesJournal]))
   ELSE TRUE
=============================================================================
