------------------------------ MODULE PolyTrace ------------------------------
(***************************************************************************)
(* Registering classes, storing and restoring objects of them: one         *)
(* transition per operation.                                               *)
(***************************************************************************)
EXTENDS PolyApi, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Result == ndJsonDeserialize(IOEnv.RESULT)

VARIABLES l, k, reg
vars == <<l, k, reg>>
C == Script[l]
R == Result[l]
Start(i) == IF i <= Len(Script) THEN Script[i].types ELSE <<>>
Init == l = 1 /\ k = 1 /\ reg = Start(1)
Going == R.st = "ok" /\ k <= Len(C.ops)
Op == C.ops[k]
Res == R.rs[k]

Reg_ == /\ Going /\ Op.k = "reg"
        /\ LET x == TLCEval(Register(reg, Op.id, Op.c)) IN Res.st = x.st /\ reg' = x.reg
        /\ k' = k + 1 /\ UNCHANGED l
Round == /\ Going /\ Op.k = "round"
         /\ IF Storable(Op.slots)
            THEN /\ Res.st = "ok" /\ (StoredSlots(reg, Res.doc, Op.slots) = TRUE)
                 /\ Res.back = "ok" /\ Res.dump = Op.slots
            ELSE Res.st = "exc"
         /\ k' = k + 1 /\ UNCHANGED <<l, reg>>
From == /\ Going /\ Op.k = "from"
        /\ LET x == Restored(reg, Op.doc, Op.old, Res.dump, 1, <<>>) IN Res.st = x.st /\ x.good = TRUE
        /\ k' = k + 1 /\ UNCHANGED <<l, reg>>
(* nothing is left behind *)
EndCase == /\ R.st = "ok" /\ k = Len(C.ops) + 1 /\ R.live = 0
           /\ l' = l + 1 /\ k' = 1 /\ reg' = Start(l + 1)

Next == l <= Len(Script) /\ (Reg_ \/ Round \/ From \/ EndCase)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
