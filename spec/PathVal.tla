------------------------------ MODULE PathVal ------------------------------
(* Path values (C12): what byte strings are paths, how a path splits into   *)
(* components, and how join/push compose.  A byte string is abstracted to a *)
(* sequence of symbols:                                                     *)
(*    a b  ordinary bytes       "."  a dot        "/"  the separator        *)
(*    z    a NUL byte           u    bytes that are not valid UTF-8         *)
(*    L    a run of 254 ordinary bytes (so La is 255 long and Laa 256)      *)
(*                                                                          *)
(* The state machine is the component scanner; at the end its output must   *)
(* be the declarative POSIX split.  The join laws are checked for every     *)
(* pair of strings.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Sym, MaxOne, MaxA, MaxB, Emit
VARIABLES mode, s, t, off, out, done
vars == <<mode, s, t, off, out, done>>

Strs(n) == UNION {[1..k -> Sym] : k \in 0..n}

Width(x) == IF x = "L" THEN 254 ELSE 1
RECURSIVE ByteLen(_)
ByteLen(q) == IF q = <<>> THEN 0 ELSE Width(Head(q)) + ByteLen(Tail(q))

IsAbs(q) == q # <<>> /\ q[1] = "/"

\* Split at separators, empty pieces included (declarative).
RECURSIVE Pieces(_, _)
Pieces(q, cur) ==
    IF q = <<>> THEN <<cur>>
    ELSE IF Head(q) = "/" THEN <<cur>> \o Pieces(Tail(q), <<>>)
    ELSE Pieces(Tail(q), Append(cur, Head(q)))

Kind(p) == IF p = <<".">> THEN "cur" ELSE IF p = <<".", ".">> THEN "parent" ELSE "normal"
NonEmpty(p) == p # <<>>
Comps(q) ==
    LET ps == SelectSeq(Pieces(q, <<>>), NonEmpty)
        named == [k \in 1..Len(ps) |-> [kind |-> Kind(ps[k]), name |-> ps[k]]]
    IN IF IsAbs(q) THEN <<[kind |-> "root", name |-> <<"/">>]>> \o named ELSE named

Range(q) == {q[k] : k \in 1..Len(q)}
PathErrors(q) ==
    (IF "z" \in Range(q) THEN {"ContainsNull"} ELSE {})
    \cup (IF \E p \in Range(Pieces(q, <<>>)) : ByteLen(p) > 255 THEN {"ComponentTooLong"} ELSE {})
IsPath(q) == PathErrors(q) = {}
NameErrors(q) ==
    (IF q = <<>> THEN {"Empty"} ELSE {})
    \cup (IF ByteLen(q) > 255 THEN {"TooLong"} ELSE {})
    \cup (IF "z" \in Range(q) THEN {"ContainsNull"} ELSE {})
    \cup (IF "/" \in Range(q) THEN {"ContainsSeparator"} ELSE {})

JoinP(p, q) ==
    IF IsAbs(q) THEN q
    ELSE IF p # <<>> /\ p[Len(p)] # "/" THEN p \o <<"/">> \o q
    ELSE p \o q

\* ------------------------------------------------------------ scanner
Init ==
    /\ off = 0 /\ out = <<>> /\ done = FALSE
    /\ \/ /\ mode = "one" /\ s \in Strs(MaxOne) /\ t = <<>>
       \/ /\ mode = "two" /\ s \in Strs(MaxA) /\ t \in Strs(MaxB)
          /\ IsPath(s)

\* End of the separators starting after `o`, and of the piece after that.
RECURSIVE SkipSep(_, _)
SkipSep(q, o) == IF o < Len(q) /\ q[o+1] = "/" THEN SkipSep(q, o+1) ELSE o
RECURSIVE SkipName(_, _)
SkipName(q, o) == IF o < Len(q) /\ q[o+1] # "/" THEN SkipName(q, o+1) ELSE o

Finish == done' = TRUE /\ UNCHANGED <<mode, s, t, off, out>>
Next1 ==
    /\ ~done
    /\ IF mode = "two" \/ ~IsPath(s) THEN Finish
       ELSE IF off >= Len(s) THEN Finish
       ELSE IF off = 0 /\ s[1] = "/"
         THEN off' = 1 /\ out' = Append(out, [kind |-> "root", name |-> <<"/">>]) /\ UNCHANGED <<mode, s, t, done>>
       ELSE LET b == SkipSep(s, off) IN
            IF b >= Len(s) THEN Finish
            ELSE LET e == SkipName(s, b)
                     p == SubSeq(s, b+1, e)
                 IN off' = e /\ out' = Append(out, [kind |-> Kind(p), name |-> p]) /\ UNCHANGED <<mode, s, t, done>>
Next == Next1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ScannerIsSplit == (mode = "one" /\ done /\ IsPath(s)) => out = Comps(s)
ScannerProgress == mode = "one" => off <= Len(s)
\* Every component is a valid name (or the root).
CompsAreNames == (mode = "one" /\ done /\ IsPath(s)) =>
    \A k \in 1..Len(out) : out[k].kind = "root" \/ NameErrors(out[k].name) = {}
JoinLaws == (mode = "two" /\ IsPath(t)) =>
    /\ IsPath(JoinP(s, t))
    /\ Comps(JoinP(s, t)) = IF IsAbs(t) THEN Comps(t) ELSE Comps(s) \o Comps(t)
    /\ IsAbs(JoinP(s, t)) = (IsAbs(s) \/ IsAbs(t))
    /\ JoinP(<<>>, t) = t
\* Rebuilding a path from its components gives the same components.
RECURSIVE Rejoin(_)
Rejoin(cs) == IF cs = <<>> THEN <<>> ELSE JoinP(Rejoin(SubSeq(cs, 1, Len(cs)-1)), cs[Len(cs)].name)
RejoinLaw == (mode = "one" /\ done /\ IsPath(s)) => Comps(Rejoin(Comps(s))) = Comps(s)

Line ==
    IF mode = "one"
    THEN [mode |-> "one", s |-> s, perr |-> PathErrors(s), nerr |-> NameErrors(s),
          abs |-> IsAbs(s), comps |-> IF IsPath(s) THEN Comps(s) ELSE <<>>, rejoin |-> IF IsPath(s) THEN Rejoin(Comps(s)) ELSE <<>>]
    ELSE [mode |-> "two", s |-> s, t |-> t, perr |-> PathErrors(t),
          joined |-> JoinP(s, t), comps |-> IF IsPath(t) THEN Comps(JoinP(s, t)) ELSE <<>>]
EmitInv == IF Emit /\ done THEN PrintT("@@" \o ToJson(Line)) ELSE TRUE
Termination == <>done
=============================================================================
