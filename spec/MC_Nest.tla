------------------------------ MODULE MC_Nest -------------------------------
(***************************************************************************)
(* The nesting limit.  A reader descends into scopes recursively, handing  *)
(* down the depth reached so far (the design of the implementation), and   *)
(* gives up if it is about to exceed the limit.  Whatever the sequence of  *)
(* items, that is: exactly if the scopes open at some time, the root not   *)
(* counted, are more than the limit.                                       *)
(*                                                                         *)
(* All sequences of N items below Base scopes are enumerated; each of them *)
(* is printed, to be read by the implementation in every format.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Limit, Base, N

VARIABLES ev,        \* items read below the Base scopes
          calls,     \* depth handed to each active reader (the implementation's)
          verdict
vars == <<ev, calls, verdict>>

Init == ev = <<>> /\ calls = [i \in 1..(Base + 1) |-> i - 1] /\ verdict = "reading"

Top == calls[Len(calls)]
More == verdict = "reading" /\ Len(ev) < N

Value == /\ More
         /\ ev' = Append(ev, "v") /\ UNCHANGED <<calls, verdict>>
Open(t) == /\ More
           /\ ev' = Append(ev, t)
           /\ IF Top + 1 > Limit THEN verdict' = "rejected" /\ UNCHANGED calls
              ELSE calls' = Append(calls, Top + 1) /\ UNCHANGED verdict
Close == /\ More /\ Len(calls) > Base + 1
         /\ ev' = Append(ev, "e")
         /\ calls' = SubSeq(calls, 1, Len(calls) - 1) /\ UNCHANGED verdict

Next == Value \/ Open("o") \/ Open("a") \/ Close
Spec == Init /\ [][Next]_vars

(* definition: the number of scopes open after i items, the root not counted *)
OpenAfter(i) == Base + Cardinality({j \in 1..i : ev[j] \in {"o", "a"}}) - Cardinality({j \in 1..i : ev[j] = "e"})
Exact == (verdict = "rejected") = (\E i \in 0..Len(ev) : OpenAfter(i) > Limit)

Emit == IF verdict = "rejected" \/ Len(ev) = N THEN PrintT("SCRIPT " \o ToJson([ev |-> ev])) ELSE TRUE
=============================================================================
