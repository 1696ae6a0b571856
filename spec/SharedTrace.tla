----------------------------- MODULE SharedTrace -----------------------------
(***************************************************************************)
(* A history of operations of one Tree on a graph of shared objects, one   *)
(* transition per operation.                                               *)
(*   store, pack      write the graph: the result is loaded elsewhere      *)
(*   load, source, insert   the graph becomes the document held            *)
(*   restore, unpack  from bytes;  paste, unwrap, pieces  from the         *)
(*                    document held                                        *)
(* Whatever was done before (and whatever happened to the objects restored *)
(* before), the graph met is the one of the script.                        *)
(***************************************************************************)
EXTENDS Graph, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Result == ndJsonDeserialize(IOEnv.RESULT)

VARIABLES l, k,
          held          \* is there a document to restore from?
vars == <<l, k, held>>
Case == Script[l]
R == Result[l]

Init == l = 1 /\ k = 1 /\ held = FALSE
Op == Case.ops[k]
Res == R.rs[k]
Lists == "temps" \in DOMAIN Case
Going == ~Lists /\ R.st = "ok" /\ k <= Len(Case.ops)
Expected == Seen(Case.g)

Writes == /\ Going /\ Op.k \in {"store", "pack"}
          /\ Res.st = "ok" /\ (SeenInDoc(Res.doc, Case.types) = Expected) = TRUE
          /\ held' = (IF Op.k = "pack" THEN FALSE ELSE held)      \* packing empties the document
          /\ k' = k + 1 /\ UNCHANGED l
Holds == /\ Going /\ Op.k \in {"load", "source", "insert"}
         /\ Res.st = "ok" /\ (SeenInDoc(Res.doc, Case.types) = Expected) = TRUE
         /\ held' = TRUE /\ k' = k + 1 /\ UNCHANGED l
Direct == /\ Going /\ Op.k \in {"restore", "unpack"}
          /\ Res.st = "ok" /\ (Res.dump = Expected) = TRUE
          /\ held' = FALSE /\ k' = k + 1 /\ UNCHANGED l
FromHeld == /\ Going /\ Op.k \in {"paste", "unwrap", "pieces"}
            /\ Assert(held, "the script restores from nothing")
            /\ Res.st = "ok" /\ (Res.dump = Expected) = TRUE
            /\ k' = k + 1 /\ UNCHANGED <<l, held>>
Small(x) == IntV(FALSE, IF x = 0 THEN <<>> ELSE IF x < 256 THEN <<x>> ELSE <<x % 256, x \div 256>>)
(* objects that do not outlive their being inserted: restored, they have the values they had *)
Temporary == Lists /\ R.st = "ok" /\ R.lists = [i \in DOMAIN Case.temps |-> [j \in DOMAIN Case.temps[i] |-> Small(Case.temps[i][j])]]
             /\ l' = l + 1 /\ UNCHANGED <<k, held>>
EndCase == ~Lists /\ R.st = "ok" /\ k = Len(Case.ops) + 1 /\ l' = l + 1 /\ k' = 1 /\ held' = FALSE

Next == l <= Len(Script) /\ (Writes \/ Holds \/ Direct \/ FromHeld \/ Temporary \/ EndCase)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
