------------------------------ MODULE MC_Threads ------------------------------
(***************************************************************************)
(* Threads with documents of their own. An operation works step by step on *)
(* the memory of its document: a scratch buffer that texts are converted   *)
(* in, a table of names, a pool of blocks that come back for reuse. What   *)
(* the threads have in common (registered types) is only read. Whatever    *)
(* the schedule, each operation finds its own things.                      *)
(* Shared says which of them the documents have in common: {} in the code, *)
(* anything else violates Own.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Threads, MaxOps, Shared

Kinds == {"store", "paste", "load", "restore"}
Things == {"scratch", "names", "pool"}
VARIABLES ops, pc, mem, got, good
vars == <<ops, pc, mem, got, good>>

(* where a thread's document has a thing *)
At(t, x) == IF x \in Shared THEN CHOOSE u \in Threads : \A v \in Threads : u <= v ELSE t
Mark(t) == <<t, Len(ops[t])>>          \* what an operation leaves in its memory
Nobody == <<0, 0>>

Init == /\ ops = [t \in Threads |-> <<>>] /\ pc = [t \in Threads |-> "idle"]
        /\ mem = [x \in Things |-> [t \in Threads |-> Nobody]]
        /\ got = [t \in Threads |-> {}] /\ good = TRUE
Begin(t) == /\ pc[t] = "idle" /\ Len(ops[t]) < MaxOps
            /\ \E k \in Kinds : ops' = [ops EXCEPT ![t] = Append(@, k)]
            /\ pc' = [pc EXCEPT ![t] = "types"] /\ UNCHANGED <<mem, got, good>>
(* registered types: no memory is written *)
Types(t) == pc[t] = "types" /\ pc' = [pc EXCEPT ![t] = "fill"] /\ UNCHANGED <<ops, mem, got, good>>
Fill(t) == /\ pc[t] = "fill"
           /\ \E x \in Things \ got[t] :
                /\ mem' = [mem EXCEPT ![x][At(t, x)] = Mark(t)]
                /\ got' = [got EXCEPT ![t] = @ \cup {x}]
                /\ pc' = [pc EXCEPT ![t] = IF got[t] \cup {x} = Things THEN "use" ELSE "fill"]
           /\ UNCHANGED <<ops, good>>
Use(t) == /\ pc[t] = "use"
          /\ \E x \in got[t] :
               /\ good' = (good /\ mem[x][At(t, x)] = Mark(t))
               /\ got' = [got EXCEPT ![t] = @ \ {x}]
               /\ pc' = [pc EXCEPT ![t] = IF got[t] = {x} THEN "idle" ELSE "use"]
          /\ UNCHANGED <<ops, mem>>
Next == \E t \in Threads : Begin(t) \/ Types(t) \/ Fill(t) \/ Use(t)
Spec == Init /\ [][Next]_vars

Own == good
(* a step of one thread leaves the others' memory alone *)
Apart == [][\A t \in Threads : pc'[t] # pc[t] \/ got'[t] # got[t] \/ ops'[t] # ops[t]
             \/ \A x \in Things : mem'[x][t] = mem[x][t]]_vars
Emit == (\E t \in Threads : pc[t] # "idle" \/ Len(ops[t]) < MaxOps) \/ PrintT("SCRIPT " \o ToJson([th |-> [t \in 1..Len(ops) |-> ops[t]]]))
=============================================================================
