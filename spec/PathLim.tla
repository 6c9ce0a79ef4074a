------------------------------ MODULE PathLim ------------------------------
(* C03: the limits of path resolution (40 symlinks, 4096 bytes).            *)
(*                                                                          *)
(* A path names the first of a chain of n symlinks; each link's target is   *)
(* padding ("./" or repeated separators), an optional real directory and    *)
(* the name of the next link.  The specification follows the splices and    *)
(* tracks the length of the path being resolved.  Lengths are real byte     *)
(* counts around the limit.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLinks, MaxLen, Counts, DirLens, Deltas, Emit

NameLen == 3
MCDeltas == {-2, -1, 0, 1, 2, 3, 100}
Styles == {"rel", "abs"}
Pads == {"none", "dot", "slash"}

VARIABLES sc, hop, pre, links, res, either
vars == <<sc, hop, pre, links, res, either>>

\* sc: n links; cyc: the last link points at the first; dl: length of the
\* directory component (with separator) in each target; at hop ph (0 = the
\* input path) padding brings the length to MaxLen + delta.  With up, every
\* target (and the path itself) makes a detour "up/../" before the name.
Scenarios == [n : Counts, cyc : BOOLEAN, style : Styles, dl : DirLens, pad : Pads, ph : {0, 1, 7, 40}, delta : Deltas, up : BOOLEAN]
Ok(s) == /\ (s.cyc => s.n > 0 /\ s.dl = 0)
         /\ s.ph <= s.n
        /\ (s.up => s.pad = "none")
         /\ (s.pad = "none" => s.ph = 0 /\ s.delta = 0)
         /\ (s.n = 0 => s.style = "rel" /\ s.dl = 0)
\* Prefix length (canonical part, with its trailing separator) after h hops.
PreAt(s, h) == 1 + h * s.dl
\* Length of the path after splicing in the target of hop h without padding.
Bare(s, h) == PreAt(s, h) + NameLen + (IF s.up THEN 6 ELSE 0)
PadAt(s, h) == IF s.pad # "none" /\ h = s.ph THEN
                  (IF MaxLen + s.delta > Bare(s, h) THEN MaxLen + s.delta - Bare(s, h) ELSE 0) ELSE 0
\* "dot" padding is "./" repeated, with a final extra separator if odd;
\* "slash" padding is "./" followed by separators.
Dedup(s, p) == IF p < 2 THEN 0 ELSE IF s.pad = "dot" THEN p - (p % 2) ELSE 2
Raw(s, h) == Bare(s, h) + PadAt(s, h)
Ded(s, h) == Bare(s, h) + Dedup(s, PadAt(s, h))

Init == /\ sc \in { s \in Scenarios : Ok(s) }
        /\ hop = 0 /\ links = 0 /\ either = FALSE /\ pre = PreAt(sc, 0)
        /\ res = IF Raw(sc, 0) > MaxLen THEN "PathTooLong" ELSE "pending"

\* Looking up the current name: another link, or the final file.
Follow ==
  /\ res = "pending" /\ (hop < sc.n \/ sc.cyc)
  /\ links' = links + 1
  /\ hop' = IF hop < sc.n THEN hop + 1 ELSE 1
  /\ IF links + 1 > MaxLinks
     THEN res' = "TooManySymlinks" /\ UNCHANGED <<pre, either>>
     ELSE /\ pre' = PreAt(sc, hop')
          /\ IF Ded(sc, hop') > MaxLen THEN res' = "PathTooLong" /\ UNCHANGED either
             ELSE /\ res' = res
                  /\ either' = (either \/ Raw(sc, hop') > MaxLen)
  /\ UNCHANGED sc
Done ==
  /\ res = "pending" /\ hop = sc.n /\ ~sc.cyc
  /\ res' = "Ok" /\ UNCHANGED <<sc, hop, pre, links, either>>
Out ==
  /\ res \notin {"pending", "out"}
  /\ (Emit => PrintT("@@" \o ToJson([sc |-> sc, res |-> res, either |-> either, links |-> links])))
  /\ res' = "out" /\ UNCHANGED <<sc, hop, pre, links, either>>
Next == Follow \/ Done \/ Out
Spec == Init /\ [][Next]_vars

LinkBound == links <= MaxLinks + 1
CycleFails == (sc.cyc /\ res # "out") => res # "Ok"
CountExact == (res = "Ok") => links = sc.n /\ sc.n <= MaxLinks
LenBound == res = "pending" => Ded(sc, hop) <= MaxLen
=============================================================================
