-------------------------------- MODULE Ops --------------------------------
(* C13: which objects each operation accepts, and the error otherwise.       *)
(*                                                                           *)
(* An object lies at /d/o.  The operation's path reaches it directly or      *)
(* through 1 or 2 symlinks, with a suffix after the last name.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Specials == {"fifo", "sock", "chr", "blk"}
Files == {"text", "empty", "bad0", "badmid", "badend", "encfile", "huge"}
Dirs == {"dir", "idir", "encdir"}
\* Symlinks that are themselves the object: dangling, a loop, an encrypted one,
\* one whose target is empty or contains a NUL.
Syms == {"dangling", "loop", "encsym", "emptysym", "nulsym"}
Objects == Specials \cup Files \cup Dirs \cup Syms \cup {"missing"}
Suffixes == {"", "/", "//", "/.", "/./", "/x", "/.."}
OpNames == <<"open", "read", "read_to_string", "read_link", "read_dir", "exists", "metadata", "symlink_metadata", "canonicalize">>

VARIABLES obj, via, rel, suffix, done
vars == <<obj, via, rel, suffix, done>>

Ok(k) == [ok |-> TRUE, k |-> k]
Er(e) == [ok |-> FALSE, k |-> e]
\* Result of following the object's name to the end.
Follow(o) ==
  CASE o \in {"missing", "dangling"} -> Er("NotFound")
    [] o = "loop" -> Er("TooManySymlinks")
    [] o = "encsym" -> Er("Encrypted")
    [] o \in {"emptysym", "nulsym"} -> Er("Corrupt")
    [] OTHER -> Ok(o)
\* What the suffix does to an object that has been reached.
Suffixed(r) ==
  IF ~r.ok THEN r
  ELSE IF suffix = "" THEN r
  ELSE IF r.k \notin Dirs THEN Er("NotADirectory")
  ELSE IF suffix = "/x" THEN (IF r.k = "encdir" THEN Er("Encrypted") ELSE Er("NotFound"))
  ELSE IF suffix = "/.." THEN Ok("parent")
  ELSE r
\* The name in the path is a symlink?
IsLink == via > 0 \/ obj \in Syms
Resolve(follow) ==
  IF follow \/ ~IsLink \/ suffix \in {"/.", "/./", "/x", "/.."} THEN Suffixed(Follow(obj))
  ELSE IF suffix = "" THEN Ok(IF via > 0 THEN "link" ELSE obj)
  ELSE Er("NotADirectory")   \* documented by a test of the library

Effective(r) == IF r.ok /\ r.k = "parent" THEN "dir" ELSE r.k
Result(op) ==
  LET r == Resolve(op \notin {"read_link", "symlink_metadata"}) IN
  IF ~r.ok THEN (IF op = "exists" /\ r.k = "NotFound" THEN Ok("false") ELSE r)
  ELSE LET k == Effective(r) IN
  CASE op \in {"open", "read", "read_to_string"} ->
         IF k \in Dirs THEN Er("IsADirectory")
         ELSE IF k \in Specials THEN Er("IsASpecialFile")
         ELSE IF k = "encfile" THEN Er("Encrypted")
         ELSE IF k = "huge" /\ op # "open" THEN Er("FileTooLarge")
         ELSE IF op = "read_to_string" /\ k \in {"bad0", "badmid", "badend"} THEN Er("NotUtf8")
         ELSE Ok(k)
    [] op = "read_link" ->
         IF k = "encsym" THEN Er("Encrypted")
         ELSE IF k \in {"emptysym", "nulsym"} THEN Er("Corrupt")
         ELSE IF k \in Syms \cup {"link"} THEN Ok(k)
         ELSE Er("NotASymlink")
    [] op = "read_dir" -> IF k = "encdir" THEN Er("Encrypted") ELSE IF k \in Dirs THEN Ok(k) ELSE Er("NotADirectory")
    [] op = "exists" -> Ok("true")
    [] OTHER -> Ok(k)
\* Standard I/O error kind of each error ("Other" keeps the library's error inside).
IoKind(e) ==
  CASE e \in {"IsASpecialFile", "MalformedPath", "NotASymlink", "NotAbsolute"} -> "InvalidInput"
    [] e = "NotUtf8" -> "InvalidData"
    [] e = "Encrypted" -> "PermissionDenied"
    [] e \in {"Corrupt", "Incompatible", "PathTooLong", "TooManySymlinks", "Io"} -> "Other"
    [] OTHER -> e

Init == /\ obj \in Objects /\ via \in 0..2 /\ rel \in BOOLEAN /\ suffix \in Suffixes
        /\ (via = 0 => rel) /\ done = FALSE
        \* "." and ".." of an encrypted directory are not part of the contract.
        /\ obj = "encdir" => suffix \notin {"/.", "/./", "/.."}
Next ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED <<obj, via, rel, suffix>>
  /\ PrintT("@@" \o ToJson([ obj |-> obj, via |-> via, rel |-> rel, suffix |-> suffix,
       parent |-> (Suffixed(Follow(obj)).ok /\ Suffixed(Follow(obj)).k = "parent"),
       ops |-> [ i \in 1..Len(OpNames) |->
                 LET r == Result(OpNames[i]) IN
                 [ op |-> OpNames[i], ok |-> r.ok, k |-> r.k, io |-> IF r.ok THEN "" ELSE IoKind(r.k) ] ] ]))
Spec == Init /\ [][Next]_vars

\* Consistency between the operations.
Existence == (Result("exists") = Ok("true")) <=> Result("metadata").ok
Canonical == Result("canonicalize").ok <=> Result("metadata").ok
ReadImpliesOpen == Result("read").ok => Result("open").ok
StringImpliesRead == Result("read_to_string").ok => Result("read").ok
DirOrFile == ~(Result("read_dir").ok /\ Result("open").ok)
LinkOnlyNoFollow == Result("read_link").ok => Result("symlink_metadata").ok
=============================================================================
