---------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Streams.                                                                *)
(*   in   the bytes C.b are read from memory and from several kinds of     *)
(*        streams: R.outs are the different outcomes of loading them,      *)
(*        R.uns those of unpacking the items called C.asks.  There is one. *)
(*   out  a history of a stream: text written, positions set, documents    *)
(*        and objects written.  The state is the content of the stream and *)
(*        its position.                                                    *)
(***************************************************************************)
EXTENDS SrlDoc, TLC, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Result == ndJsonDeserialize(IOEnv.RESULT)

VARIABLES l, k, data, pos
vars == <<l, k, data, pos>>
C == Script[l]
R == Result[l]

Init == l = 1 /\ k = 0 /\ data = <<>> /\ pos = 0
NextCase == l' = l + 1 /\ k' = 0 /\ data' = <<>> /\ pos' = 0

-----------------------------------------------------------------------------
FirstNamed(s, n) == LET is == {i \in 1..Len(s) : s[i].n = n} IN
                    IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
(* what unpacking something of any kind yields: scopes come first *)
Unpacked(n, r) ==
    LET i == FirstNamed(C.doc.c, n)
        j == FirstNamed(C.doc.v, n)
    IN  IF i > 0 THEN r.k = "c" /\ DocBack(C.fmt, C.doc.c[i].d, r.d)
        ELSE r.k = "v" /\ ScalarBack(C.fmt, C.doc.v[j].s, r.s)
Present(n) == FirstNamed(C.doc.c, n) + FirstNamed(C.doc.v, n) > 0

In == /\ C.op = "in" /\ R.st = "ok"
      /\ Len(R.outs) = 1 /\ R.outs[1].st \in {"ok", "exc"}
      /\ (C.wf => R.outs[1].st = "ok" /\ DocBack(C.fmt, C.doc, R.outs[1].doc)) = TRUE
      /\ IF C.asks = <<>> THEN TRUE
         ELSE /\ Len(R.uns) = 1 /\ R.uns[1].st \in {"ok", "exc"}
              /\ (C.wf => IF \A i \in 1..Len(C.asks) : Present(C.asks[i])
                          THEN /\ R.uns[1].st = "ok"
                               /\ \A i \in 1..Len(C.asks) : Unpacked(C.asks[i], R.uns[1].rs[i])
                          ELSE R.uns[1].st = "exc") = TRUE
      /\ NextCase

-----------------------------------------------------------------------------
Larger(a, b) == IF a > b THEN a ELSE b
Over(c, p, b) ==
    IF p = Len(c) THEN c \o b
    ELSE [i \in 1..Larger(Len(c), p + Len(b)) |-> IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE IF i <= Len(c) THEN c[i] ELSE 0]

Out == C.op = "out" /\ R.st = "ok"
Begin == Out /\ k = 0 /\ data' = C.init /\ pos' = (IF C.kind = "pipe" THEN Len(C.init) ELSE C.at) /\ k' = 1 /\ UNCHANGED l

Step ==
    /\ Out /\ k \in 1..Len(C.ops)
    /\ LET o == C.ops[k]
           b == IF o.k = "text" THEN o.b ELSE R.rs[k].b
       IN  IF o.k = "seek" THEN pos' = o.p /\ UNCHANGED data
           ELSE data' = Over(data, pos, b) /\ pos' = pos + Len(b)
    /\ R.rs[k].st = "ok" /\ R.rs[k].p = pos'
    /\ k' = k + 1 /\ UNCHANGED l

Finish == Out /\ k = Len(C.ops) + 1 /\ R.c = data /\ NextCase

Next == l <= Len(Script) /\ (In \/ Begin \/ Step \/ Finish)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
