----------------------------- MODULE SessionTrace -----------------------------
(***************************************************************************)
(* Recorded histories of operations on two Trees and eight parser objects, *)
(* some of which fail.                                                     *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Recorded == ndJsonDeserialize(IOEnv.RESULT)

VARIABLES l, k,
          held      \* the documents
vars == <<l, k, held>>
C == Script[l]
R == Recorded[l]
Init == l = 1 /\ k = 1 /\ held = Nothing
Op == C.ops[k]
Res == R.rs[k]

Step(kinds) == /\ R.st = "ok" /\ k <= Len(C.ops) /\ Op.k \in kinds
               /\ Result(Op, Res)
               /\ Res.held = After(Op, Res, held)
               /\ held' = Res.held /\ k' = k + 1 /\ UNCHANGED l
Load == Step(Loads)
Pass == Step(Direct)
Read == Step(Reads)
Edit == Step({"insert"})
Clear == Step({"clear"})
Move == Step({"move"})
EndCase == /\ R.st = "ok" /\ k = Len(C.ops) + 1
           /\ l' = l + 1 /\ k' = 1 /\ held' = Nothing

Next == l <= Len(Script) /\ (Load \/ Pass \/ Read \/ Edit \/ Clear \/ Move \/ EndCase)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
