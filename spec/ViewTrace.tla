------------------------------ MODULE ViewTrace ------------------------------
(* Validation of recorded executions of the library against View.           *)
(* TRACE names a file of JSON lines: one execution each, with the sizes of  *)
(* the files and the sequence of observed events.                           *)
EXTENDS View, Json, IOUtils
VARIABLES tr, l
tvars == <<h, it, ent, cl, tr, l>>
Traces == ndJsonDeserialize(IOEnv.TRACE)
T == Traces[tr]
Init == /\ tr \in 1..Len(Traces) /\ l = 1
        /\ InitView(Traces[tr].nh, Traces[tr].ni, Traces[tr].nc)
\* An empty TLA+ sequence comes back as an empty JSON array.
Step(e) ==
  CASE e.e = "open"   -> OpenF(e.s, e.c, e.path, e.hit, e.res)
    [] e.e = "read"   -> ReadF(e.s, T.size[h[e.s].node], e.n, e.hit, e.res, e.k, e.val)
    [] e.e = "seek"   -> SeekF(e.s, e.n, e.hit, e.res)
    [] e.e = "pos"    -> PosF(e.s, e.n)
    [] e.e = "close"  -> CloseF(e.s)
    [] e.e = "iter"   -> OpenI(e.s, e.c, e.path, e.hit, e.res)
    [] e.e = "next"   -> NextI(e.s, e.hit, e.res, e.k, e.val)
    [] e.e = "meta"   -> MetaE(e.s, e.hit, e.res, e.val)
    [] e.e = "drop"   -> CloseI(e.s)
    [] e.e = "clone"  -> CloneC(e.c, e.s)
    [] e.e = "unclone" -> DropC(e.c)
    [] e.e = "path"   -> PathOp(e.c, e.op, e.path, e.hit, e.res, e.val)
Next == /\ l <= Len(T.ev)
        /\ Step(T.ev[l])
        /\ l' = l + 1 /\ tr' = tr
        /\ (l = Len(T.ev)) => PrintT("@@" \o ToJson([done |-> T.id]))
Spec == Init /\ [][Next]_tvars
\* For the report on a rejected execution: how far it was accepted.
Progress == (IOEnv.PROGRESS = "1") => PrintT("@@" \o ToJson([id |-> T.id, l |-> l]))
=============================================================================
