-------------------------------- MODULE View --------------------------------
(* One loaded filesystem used through clones, open files and directory      *)
(* iterators in any interleaving, over a reader that may fail (C06, C17,    *)
(* C11).                                                                    *)
(*                                                                          *)
(* The state is what a user can rely on: where each handle stands.  There   *)
(* is no cache and no shared cursor in it - that history, caching and other *)
(* handles cannot be observed is exactly that every recorded execution of   *)
(* the library is a behaviour of this specification.  Each action takes     *)
(* what was observed: whether a reader call failed during the operation     *)
(* (hit), the class of the result, and whether the value returned equals    *)
(* the one the image defines (val).                                         *)
EXTENDS StdFs, Integers, TLC

VARIABLES h,    \* file slots: [node, pos], node "" if closed
          it,   \* iterator slots: [dir, n, done], dir "" if closed
          ent,  \* the last entry an iterator slot produced: its node, or ""
          cl    \* filesystem clones: alive?
vars == <<h, it, ent, cl>>

Closed == [node |-> "", pos |-> 0]
NoIter == [dir |-> "", n |-> 0, done |-> FALSE]
InitView(nh, ni, nc) ==
  /\ h = [s \in 1..nh |-> Closed]
  /\ it = [s \in 1..ni |-> NoIter]
  /\ ent = [s \in 1..ni |-> ""]
  /\ cl = [c \in 1..nc |-> c = 1]

\* A failing reader call is reported, and nothing else fails.
Outcome(hit, expected, res) == res = IF hit THEN "Io" ELSE expected
ErrOf(r) == IF r.err = "" THEN "Ok" ELSE r.err

\* ---- files
OpenF(s, c, path, hit, res) ==
  /\ cl[c] /\ h[s] = Closed
  /\ LET r == Run("open", path) IN
     /\ Outcome(hit, ErrOf(r), res)
     /\ h' = IF res = "Ok" THEN [h EXCEPT ![s] = [node |-> r.node, pos |-> 0]] ELSE h
  /\ UNCHANGED <<it, ent, cl>>
\* A read of at most n bytes returns k of them; size is that of the file.
ReadF(s, size, n, hit, res, k, val) ==
  /\ h[s] # Closed
  /\ Outcome(hit, "Ok", res)
  /\ IF hit THEN k = 0 /\ h' = h
     ELSE /\ val
          /\ IF n = 0 \/ h[s].pos >= size THEN k = 0
             ELSE 1 <= k /\ k <= n /\ k <= size - h[s].pos
          /\ h' = [h EXCEPT ![s].pos = @ + k]
  /\ UNCHANGED <<it, ent, cl>>
SeekF(s, to, hit, res) ==
  /\ h[s] # Closed
  /\ Outcome(hit, "Ok", res)
  /\ h' = IF hit THEN h ELSE [h EXCEPT ![s].pos = to]
  /\ UNCHANGED <<it, ent, cl>>
PosF(s, pos) == h[s] # Closed /\ h[s].pos = pos /\ UNCHANGED vars
CloseF(s) == h[s] # Closed /\ h' = [h EXCEPT ![s] = Closed] /\ UNCHANGED <<it, ent, cl>>

\* ---- directory iterators
OpenI(s, c, path, hit, res) ==
  /\ cl[c] /\ it[s] = NoIter
  /\ LET r == Resolve(path, TRUE)
         e == IF r.err # "" THEN r.err ELSE IF r.node \notin Dirs THEN "NotADirectory" ELSE "Ok" IN
     /\ Outcome(hit, e, res)
     /\ it' = IF res = "Ok" THEN [it EXCEPT ![s] = [dir |-> r.node, n |-> 0, done |-> FALSE]] ELSE it
  /\ UNCHANGED <<h, ent, cl>>
\* The entry is number k of the listing, or res = "End".
NextI(s, hit, res, k, val) ==
  /\ it[s] # NoIter
  /\ IF hit
     THEN /\ res = "Io"
          /\ \E d \in BOOLEAN : it' = [it EXCEPT ![s].done = d]   \* it may or may not continue
          /\ ent' = ent
     ELSE IF it[s].done \/ it[s].n = Len(Entries(it[s].dir))
     THEN /\ res = "End"
          /\ it' = [it EXCEPT ![s].done = TRUE]
          /\ ent' = ent
     ELSE /\ res = "Ok" /\ val /\ k = it[s].n + 1
          /\ it' = [it EXCEPT ![s].n = k]
          /\ ent' = [ent EXCEPT ![s] = Child(it[s].dir, Entries(it[s].dir)[k])]
  /\ UNCHANGED <<h, cl>>
\* An entry outlives its iterator.
MetaE(s, hit, res, val) ==
  /\ ent[s] # ""
  /\ Outcome(hit, "Ok", res)
  /\ ~hit => val
  /\ UNCHANGED vars
CloseI(s) == it[s] # NoIter /\ it' = [it EXCEPT ![s] = NoIter] /\ UNCHANGED <<h, ent, cl>>

\* ---- clones and one-shot operations
CloneC(c, new) == cl[c] /\ ~cl[new] /\ cl' = [cl EXCEPT ![new] = TRUE] /\ UNCHANGED <<h, it, ent>>
DropC(c) == cl[c] /\ (\E d \in DOMAIN cl \ {c} : cl[d]) /\ cl' = [cl EXCEPT ![c] = FALSE] /\ UNCHANGED <<h, it, ent>>
PathOp(c, op, path, hit, res, val) ==
  /\ cl[c]
  /\ Outcome(hit, ErrOf(Run(op, path)), res)
  /\ res = "Ok" => val
  /\ UNCHANGED vars
=============================================================================
