-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* What operations on two Trees come to: each gives what it gives with new *)
(* instances, and the documents held change by loading and editing only.   *)
(* An operation op comes with its result res; held is the pair of          *)
(* documents before it.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

EmptyDoc == [t |-> "o", v |-> <<>>, c |-> <<>>]
Nothing == <<EmptyDoc, EmptyDoc>>

(* as new instances do it *)
Same(op, res) == /\ res.st \in {"ok", "exc"}
                 /\ res.fst # "none" => res.st = res.fst /\ res.out = res.fout
                 /\ op.clean => res.st = "ok"

Loads == {"load", "lobj"}
Direct == {"restore", "unpack", "pack"}
Reads == {"store", "write", "paste"}

Result(op, res) == IF op.k = "move" THEN TRUE
                   ELSE Same(op, res) /\ (op.k = "restore" /\ op.clean => res.out = op.obj.o)

(* the documents held afterwards *)
After(op, res, held) ==
    LET t == op.t + 1
    IN CASE op.k \in Loads -> [held EXCEPT ![t] = IF res.st = "ok" THEN res.fheld ELSE res.held[t]]   \* unless it fails
         [] op.k \in Direct -> [held EXCEPT ![t] = res.held[t]]                                     \* not promised
         [] op.k \in Reads -> held
         [] op.k = "insert" -> [held EXCEPT ![t].v = Append(@, [n |-> op.n, s |-> op.s])]
         [] op.k = "clear" -> [held EXCEPT ![t].v = <<>>, ![t].c = <<>>]
         [] op.k = "move" -> [i \in 1..2 |-> IF i = t THEN EmptyDoc ELSE held[t]]
=============================================================================
