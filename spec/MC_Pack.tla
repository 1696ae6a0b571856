------------------------------- MODULE MC_Pack -------------------------------
(***************************************************************************)
(* Items packed under names and unpacked in any order.  Unpacking reads    *)
(* the source once, from front to back; items met before they are asked    *)
(* for are set aside, in one store for values and one for scopes, which is *)
(* how a name is looked up: first among the ones set aside.  For every     *)
(* list of items and every sequence of names, the outcome is the one of a  *)
(* table of names.  The selections are printed and replayed.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS N, MaxAsks,
          Kinds         \* of an item: "v", "c"

Slots == 1..N
Missing == N + 1                    \* a name that is not packed at all
Arrangements(S, n) == {s \in UNION {[1..m -> S] : m \in 0..n} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

VARIABLES order,     \* the slots in the order they were packed
          kind,      \* of the slots
          asks, pos, \* names asked for, how many items are read
          vals, nodes, \* set aside
          got, st
vars == <<order, kind, asks, pos, vals, nodes, got, st>>

Init == /\ order \in Arrangements(Slots, N) /\ kind \in [Slots -> Kinds] /\ asks \in Arrangements(Slots \cup {Missing}, MaxAsks)
        /\ pos = 0 /\ vals = <<>> /\ nodes = <<>> /\ got = <<>> /\ st = "run"

Q == asks[Len(got) + 1]
KindOf(q) == IF q = Missing THEN "v" ELSE kind[q]
Aside == IF KindOf(Q) = "v" THEN vals ELSE nodes
Running == st = "run" /\ Len(got) < Len(asks)
In(s, x) == \E i \in DOMAIN s : s[i] = x
Keep == UNCHANGED <<order, kind, asks>>

Found == /\ Running /\ In(Aside, Q)
         /\ got' = Append(got, Q)
         /\ IF KindOf(Q) = "v" THEN vals' = SelectSeq(vals, LAMBDA x : x # Q) /\ UNCHANGED nodes
            ELSE nodes' = SelectSeq(nodes, LAMBDA x : x # Q) /\ UNCHANGED vals
         /\ UNCHANGED <<pos, st>> /\ Keep
Read == /\ Running /\ ~In(Aside, Q) /\ pos < Len(order)
        /\ pos' = pos + 1
        /\ LET x == order[pos + 1] IN
           IF x = Q THEN got' = Append(got, x) /\ UNCHANGED <<vals, nodes>>
           ELSE /\ UNCHANGED got
                /\ IF kind[x] = "v" THEN vals' = Append(vals, x) /\ UNCHANGED nodes
                   ELSE nodes' = Append(nodes, x) /\ UNCHANGED vals
        /\ UNCHANGED st /\ Keep
NotThere == /\ Running /\ ~In(Aside, Q) /\ pos = Len(order)
            /\ st' = "exc" /\ UNCHANGED <<pos, vals, nodes, got>> /\ Keep
Done == st = "run" /\ Len(got) = Len(asks) /\ st' = "ok" /\ UNCHANGED <<pos, vals, nodes, got>> /\ Keep
Next == Found \/ Read \/ NotThere \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Packed == {order[i] : i \in DOMAIN order}
Outcome == /\ st = "ok" => got = asks /\ \A i \in DOMAIN asks : asks[i] \in Packed
           /\ st = "exc" => \E i \in DOMAIN asks : asks[i] \notin Packed
(* nothing is lost or found twice *)
Account == LET seen == {order[i] : i \in 1..pos}
               s == vals \o nodes \o got
           IN  {s[i] : i \in DOMAIN s} = seen /\ Len(s) = pos
Ends == <>(st # "run")
Emit == st # "run" \/ pos > 0 \/ got # <<>> \/ (\E x \in Slots : kind[x] # "v") \/ PrintT("SCRIPT " \o ToJson([order |-> order, asks |-> asks]))
=============================================================================
