----------------------------- MODULE TableTrace -----------------------------
(* Histories of operations on hash tables are behaviours of TableApi. *)
EXTENDS TableApi, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Result == ndJsonDeserialize(IOEnv.RESULT)

VARIABLES l, k, ts
vars == <<l, k, ts>>
C == Script[l]
R == Result[l]

Start(i) == IF i <= Len(Script) THEN [j \in 1..Len(Script[i].tables) |-> Empty] ELSE <<>>
Init == l = 1 /\ k = 1 /\ ts = Start(1)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

Operation ==
    /\ R.st = "ok" /\ k <= Len(C.ops)
    /\ LET o == C.ops[k]
           r == R.rs[k]
       IN  /\ r.st = "ok"
           /\ Answers(ts, o, r) = TRUE
           /\ ts' = TLCEval(Apply(ts, o, IF o.op \in {"ins", "ups"} THEN r.a ELSE 0))
           /\ r.num = Entries(ts')
           \* no value is lost or destroyed twice
           /\ (r.live = -1 \/ r.live = Sum(r.num)) = TRUE
    /\ k' = k + 1 /\ UNCHANGED l
EndCase ==
    /\ R.st = "ok" /\ k = Len(C.ops) + 1 /\ R.live = 0
    /\ l' = l + 1 /\ k' = 1 /\ ts' = Start(l + 1)

Next == l <= Len(Script) /\ (Operation \/ EndCase)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
