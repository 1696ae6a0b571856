----------------------------- MODULE NodeTrace ------------------------------
(* Traces of the document API are behaviours of NodeApi: one transition per *)
(* operation.  After a mutation, the contents of all documents are known.   *)
EXTENDS NodeApi, TLC, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Result == ndJsonDeserialize(IOEnv.RESULT)

VARIABLES l, k, docs
vars == <<l, k, docs>>
C == Script[l]
R == Result[l]

Start(i) == IF i <= Len(Script) THEN [j \in 1..Len(Script[i].types) |-> Scope(Script[i].types[j])] ELSE <<>>
Init == l = 1 /\ k = 1 /\ docs = Start(1)

Mutate ==
    /\ R.st = "ok" /\ k <= Len(C.ops)
    /\ LET o == C.ops[k] IN
       /\ o.op \in Mutations
       /\ R.rs[k].st = "ok"
       /\ docs' = TLCEval(Apply(docs, o))
       /\ docs' = R.rs[k].docs
    /\ k' = k + 1 /\ UNCHANGED l

Query ==
    /\ R.st = "ok" /\ k <= Len(C.ops)
    /\ LET o == C.ops[k] IN
       /\ o.op \notin Mutations
       /\ (R.rs[k] = Answer(docs, o)) = TRUE
    /\ k' = k + 1 /\ UNCHANGED <<l, docs>>

(* the documents are still the same after the last operation *)
EndCase ==
    /\ R.st = "ok" /\ k = Len(C.ops) + 1
    /\ R.docs = docs
    /\ l' = l + 1 /\ k' = 1 /\ docs' = Start(l + 1)

Next == l <= Len(Script) /\ (Mutate \/ Query \/ EndCase)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
