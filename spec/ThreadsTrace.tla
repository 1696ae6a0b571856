----------------------------- MODULE ThreadsTrace -----------------------------
(***************************************************************************)
(* Recorded histories of threads, each of which has Trees and parsers of   *)
(* its own. Their operations are taken in the order in which they were     *)
(* completed; what each comes to depends on its own thread only.           *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Recorded == ndJsonDeserialize(IOEnv.RESULT)

VARIABLES l, n,     \* operations completed
          k,        \* the next one of each thread
          held      \* the documents of each thread
vars == <<l, n, k, held>>
C == Script[l]
R == Recorded[l]
Start(i) == IF i > Len(Script) THEN <<>> ELSE [t \in 1..Len(Script[i].th) |-> 1]
Fresh(i) == IF i > Len(Script) THEN <<>> ELSE [t \in 1..Len(Script[i].th) |-> Nothing]
Init == l = 1 /\ n = 0 /\ k = Start(1) /\ held = Fresh(1)

Step(t) == /\ k[t] <= Len(C.th[t].ops)
           /\ LET op == C.th[t].ops[k[t]]
                  res == R.th[t].rs[k[t]]
              IN /\ res.at = n + 1
                 /\ Result(op, res)
                 /\ res.held = After(op, res, held[t])
                 /\ held' = [held EXCEPT ![t] = res.held]
           /\ k' = [k EXCEPT ![t] = @ + 1]
           /\ n' = n + 1 /\ UNCHANGED l
EndCase == /\ \A t \in 1..Len(C.th) : k[t] = Len(C.th[t].ops) + 1
           /\ l' = l + 1 /\ n' = 0 /\ k' = Start(l + 1) /\ held' = Fresh(l + 1)

Next == l <= Len(Script) /\ R.st = "ok" /\ ((\E t \in 1..Len(C.th) : Step(t)) \/ EndCase)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
