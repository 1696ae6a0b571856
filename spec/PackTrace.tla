------------------------------ MODULE PackTrace ------------------------------
(***************************************************************************)
(* Items (types C.tys, values C.vals) are packed in the order C.order      *)
(* under C.names, and unpacked by the selections C.asks: item k of an      *)
(* selection is slot i[k] asked for by the name n[k].                      *)
(*   R.node     the document of a node the items are inserted into         *)
(*   R.docs     per style, documents: packed to a buffer, to a stream,     *)
(*              the node written                                           *)
(*   R.outs     per style and selection, the different outcomes of all     *)
(*              ways to unpack                                             *)
(***************************************************************************)
EXTENDS Types, TLC, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Result == ndJsonDeserialize(IOEnv.RESULT)

VARIABLES l, k
vars == <<l, k>>
C == Script[l]
R == Result[l]

Init == l = 1 /\ k = 0
N == Len(C.order)
Slot(i) == C.order[i] + 1
Ty(i) == C.tys[Slot(i)]
FmtOf(style) == IF style = "jsonp" THEN "json" ELSE style

(* the items in a node *)
Inserted ==
    LET d == R.node
        at(i) == Named(d, Kind(Ty(i)), C.names[i])
        of(kind) == [i \in 1..N |-> IF Kind(Ty(i)) = kind THEN <<C.names[i]>> ELSE <<>>]
    IN  /\ d.t = "o" /\ Len(d.v) + Len(d.c) = N
        /\ NamesOf(d, "v") = FlattenSeq(of("v")) /\ NamesOf(d, "c") = FlattenSeq(of("c"))
        /\ \A i \in 1..N : at(i) # <<>> /\ StoredAs(Ty(i), C.vals[Slot(i)], at(i)[1])

Node_ == /\ k = 0 /\ R.st = "ok" /\ (Inserted = TRUE)
         /\ k' = 1 /\ UNCHANGED l

Unpacked(ask, outs) ==
    /\ Len(outs) = 1
    /\ LET r == outs[1] IN
       IF \A j \in 1..Len(ask.n) : \E i \in 1..N : C.names[i] = ask.n[j]
       THEN /\ r.st = "ok"
            /\ \A j \in 1..Len(ask.i) : SameVal(C.tys[ask.i[j] + 1], C.vals[ask.i[j] + 1], r.rs[j])
       ELSE r.st = "exc"
Style ==
    /\ R.st = "ok" /\ k \in 1..Len(C.styles)
    /\ (\A d \in {R.docs[k][i] : i \in 1..Len(R.docs[k])} : DocBack(FmtOf(C.styles[k]), R.node, d)) = TRUE
    /\ Len(R.outs[k]) = Len(C.asks)
    /\ (\A j \in 1..Len(C.asks) : Unpacked(C.asks[j], R.outs[k][j])) = TRUE
    /\ k' = k + 1 /\ UNCHANGED l
EndCase == R.st = "ok" /\ k = Len(C.styles) + 1 /\ l' = l + 1 /\ k' = 0

Next == l <= Len(Script) /\ (Node_ \/ Style \/ EndCase)
Spec == Init /\ [][Next]_vars

Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
