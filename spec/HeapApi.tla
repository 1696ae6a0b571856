------------------------------- MODULE HeapApi -------------------------------
(***************************************************************************)
(* Heaps hand out blocks.  live: block -> [h |-> heap, s |-> start,        *)
(* e |-> end], as intervals of addresses.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoBlocks == <<>>
Of(live, h) == {b \in DOMAIN live : live[b].h = h}
Without(live, B) == [b \in DOMAIN live \ B |-> live[b]]

Overlap(x, y) == x.s < y.e /\ y.s < x.e
Free(live, x) == \A b \in DOMAIN live : ~Overlap(live[b], x)
Disjoint(live) == \A b, c \in DOMAIN live : b # c => ~Overlap(live[b], live[c])

(* id: of the new block, x: where it is; cut: the block has been shortened to end at x.e *)
Apply(live, o, id, x) ==
    CASE o.op \in {"get", "new"} -> (id :> [h |-> o.h, s |-> x.s, e |-> x.e]) @@ live
      [] o.op = "put" -> Without(live, {o.b})
      [] o.op = "cut" -> [live EXCEPT ![o.b].e = x.e]
      [] o.op \in {"clr", "dst"} -> Without(live, Of(live, o.h))
      [] o.op \in {"mov", "mvc"} -> LET l == Without(live, Of(live, o.h))
                                    IN  [b \in DOMAIN l |-> IF l[b].h = o.u THEN [l[b] EXCEPT !.h = o.h] ELSE l[b]]
=============================================================================
