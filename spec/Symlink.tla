------------------------------ MODULE Symlink ------------------------------
(* C15: storage of symlink targets.                                          *)
(*                                                                           *)
(* The writer stores a target of n bytes inside the inode when it fits with  *)
(* its terminator (n < 60), otherwise in the file's blocks (at most one).    *)
(* The reader (ReadLink) decides by the size field alone, and must return    *)
(* exactly what was stored.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS BlockSizes

VARIABLES bs, len, body, map, done
vars == <<bs, len, body, map, done>>

PathMax == 4096
Lens(b) == { n \in {0, 1, 2, 3, 58, 59, 60, 61, 62, 254, 255, 256, 511, 512, 1022, 1023, 1024, 1025, 2000,
                    4090, 4092, 4093, 4094, 4095, 4096, 4097, 8192, 65535, 65536, 65537} : n <= b + 1 }
\* Shape of the bytes: "name" random components, "dots" = ./././o, "slashes" = ///o
\* (absolute, to the object from the root), "up" = ../d/../d/o, "high" bytes above
\* 0x7f, "comp255"/"comp256" one component of that length, "nul" a NUL inside.
Bodies == {"name", "dots", "slashes", "up", "high", "comp255", "comp256", "nul"}
Minimal(bd) == CASE bd = "dots" -> 1 [] bd = "slashes" -> 4 [] bd = "up" -> 1 [] bd = "comp255" -> 255 [] bd = "comp256" -> 256 [] OTHER -> 1

Write(n) == IF n < 60 THEN "inode" ELSE "block"
\* Algorithm of the reader.
Source(n) == IF n = 0 THEN "corrupt" ELSE IF n <= 59 THEN "inode" ELSE IF n > bs THEN "corrupt" ELSE "block"
Readable == Source(len) # "corrupt" /\ body \notin {"nul", "comp256"}
LinkResult == IF Readable THEN "ok" ELSE "Corrupt"
\* /d/l -> target.  A relative target replaces "l" after "/d/".
Spliced == IF body = "slashes" THEN len ELSE len + 3
FollowResult ==
  IF ~Readable THEN "Corrupt"
  ELSE IF Spliced > PathMax THEN "PathTooLong"
  ELSE IF body \in {"dots", "slashes", "up"} THEN "object" ELSE "NotFound"

Init ==
  /\ bs \in BlockSizes
  /\ len \in Lens(bs) /\ body \in Bodies
  /\ len >= Minimal(body) \/ (len = 0 /\ body = "name")
  /\ map \in {"extent", "map", "tree"}
  /\ (len < 60 => map = "extent")
  /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<bs, len, body, map>>
        /\ PrintT("@@" \o ToJson([bs |-> bs, len |-> len, body |-> body, map |-> map, store |-> Write(len),
                                  link |-> LinkResult, follow |-> FollowResult]))
Spec == Init /\ [][Next]_vars
\* The reader looks where the writer put it.
SamePlace == len >= 1 /\ len < bs => Source(len) = Write(len)
SameBytes == FollowResult # "Corrupt" => LinkResult = "ok"
=============================================================================
