------------------------------- MODULE Typed --------------------------------
(***************************************************************************)
(* Objects are stored and restored, one transition per document produced   *)
(* and per object restored.                                                *)
(*   store    the object of type ty with value val: R.doc (the document    *)
(*            it is loaded as), R.outer (a node it is inserted into),      *)
(*            R.docs (two per format: stored directly, written from the    *)
(*            document), R.rs (restored from all of them)                  *)
(*   restore  the encoding b is loaded (R.doc), and restored in several    *)
(*            ways (R.rs)                                                  *)
(***************************************************************************)
EXTENDS Types, TLC, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Result == ndJsonDeserialize(IOEnv.RESULT)

VARIABLES l, k
vars == <<l, k>>
C == Script[l]
R == Result[l]

Init == l = 1 /\ k = 1
NextCase == l' = l + 1 /\ k' = 1
NextStep == k' = k + 1 /\ UNCHANGED l

X == <<120>>
Scalar == Kind(C.ty) = "v"
(* the item the root of a document is for the object *)
RootItem(d) == IF Scalar THEN Nth(d, "v", 1)[1] ELSE Node(d)
FmtOf(style) == IF style = "jsonp" THEN "json" ELSE style

Loaded ==
    /\ k = 1 /\ C.op = "store" /\ R.st = "ok"
    /\ (/\ Scalar => (R.doc.t = "o" /\ Len(R.doc.v) = 1 /\ R.doc.c = <<>>)
        /\ StoredAs(C.ty, C.val, RootItem(R.doc))) = TRUE
    /\ (/\ R.outer.t = "o" /\ Len(R.outer.v) + Len(R.outer.c) = 1
        /\ LET x == Named(R.outer, Kind(C.ty), X) IN
           x # <<>> /\ StoredAs(C.ty, C.val, x[1])
                    /\ (~Scalar => x[1].d = R.doc)) = TRUE
    /\ NextStep

Docs == IF C.op = "store" THEN Len(R.docs) + 1 ELSE 1
Written ==
    /\ C.op = "store" /\ R.st = "ok" /\ k \in 2..Docs
    /\ LET d == R.docs[k - 1]
           fmt == FmtOf(C.styles[k \div 2])
       IN  (IF Scalar THEN d.t = "o" /\ Len(d.v) = 1 /\ d.c = <<>> /\ ScalarBack(fmt, R.doc.v[1].s, d.v[1].s)
            ELSE DocBack(fmt, R.doc, d)) = TRUE
    /\ NextStep

Back ==
    /\ C.op = "store" /\ R.st = "ok" /\ k > Docs /\ k <= Docs + Len(R.rs)
    /\ LET r == R.rs[k - Docs] IN (r.st = "ok" /\ SameVal(C.ty, C.val, r.r)) = TRUE
    /\ NextStep

Restored ==
    /\ C.op = "restore" /\ R.st = "ok" /\ k <= Len(R.rs)
    /\ LET r == R.rs[k]
           it == RootItem(R.doc)
           absent == Scalar /\ R.doc.v = <<>>
       IN  CASE k > 1 /\ r = R.rs[1] -> TRUE
             [] r.st = "exc" -> (absent \/ Fails(C.ty, it, FALSE, C.hints)) = TRUE
             [] r.st = "ok"  -> (~absent /\ ~Fails(C.ty, it, TRUE, C.hints) /\ Gives(C.ty, it, Default(C.ty), r.r, C.hints)) = TRUE
             [] OTHER -> FALSE
    /\ NextStep

(* every way had the same outcome *)
EndCase ==
    /\ R.st = "ok"
    /\ k = Len(R.rs) + (IF C.op = "store" THEN Docs + 1 ELSE 1)
    /\ (\A i \in 1..Len(R.rs) : R.rs[i].st = R.rs[1].st /\ (R.rs[1].st = "ok" => SameVal(C.ty, R.rs[1].r, R.rs[i].r))) = TRUE
    /\ NextCase

Next == l <= Len(Script) /\ (Loaded \/ Written \/ Back \/ Restored \/ EndCase)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
