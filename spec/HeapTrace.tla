------------------------------ MODULE HeapTrace ------------------------------
(***************************************************************************)
(* Histories of operations on heaps are behaviours of HeapApi: every block *)
(* is aligned and apart from all others (addresses are ranks within the    *)
(* trace), no operation changes the content of a live block, a failed      *)
(* operation changes nothing, and everything is freed in the end.          *)
(***************************************************************************)
EXTENDS HeapApi, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Result == ndJsonDeserialize(IOEnv.RESULT)

VARIABLES l, k, live
vars == <<l, k, live>>
C == Script[l]
R == Result[l]
Init == l = 1 /\ k = 1 /\ live = NoBlocks

Operation ==
    /\ R.st = "ok" /\ k <= Len(C.ops)
    /\ LET o == C.ops[k]
           r == R.rs[k]
       IN  /\ r.bad = <<>>
           /\ IF r.st = "bad_alloc" THEN "f" \in DOMAIN o /\ live' = live
              ELSE /\ r.st = "ok"
                   /\ (o.op \in {"get", "new"}) => r.al /\ (Free(live, [s |-> r.s, e |-> r.e]) = TRUE)
                   /\ live' = TLCEval(Apply(live, o, k, [s |-> r.s, e |-> r.e]))
    /\ k' = k + 1 /\ UNCHANGED l
EndCase ==
    /\ R.st = "ok" /\ k = Len(C.ops) + 1 /\ R.bal = 0
    /\ l' = l + 1 /\ k' = 1 /\ live' = NoBlocks

Next == l <= Len(Script) /\ (Operation \/ EndCase)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
