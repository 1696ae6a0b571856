------------------------------ MODULE MC_Node -------------------------------
(***************************************************************************)
(* Design of the document store: nodes live in a heap and are referred to  *)
(* by their parents; copying a node allocates new ones.  Every history of  *)
(* N operations on two documents is explored: the heap always represents   *)
(* the documents as module NodeApi defines them, every node has exactly    *)
(* one parent, and nothing but the documents named in an operation         *)
(* changes.  The histories are printed and replayed in the implementation. *)
(***************************************************************************)
EXTENDS NodeApi, TLC, Json, FiniteSets
CONSTANTS N, Sample  \* one history out of Sample is printed

VARIABLES docs, heap, root, next, hist
(* heap: function from addresses to [t, v, c: sequence of <<name, address>>] *)
vars == <<docs, heap, root, next, hist>>

Names == {<<97>>, <<98>>}
One == [k |-> "i", g |-> 0, m |-> <<1>>]
Docs == 1..2

Init == /\ docs = <<Scope("o"), Scope("a")>>
        /\ heap = 1 :> [t |-> "o", v |-> <<>>, c |-> <<>>] @@ 2 :> [t |-> "a", v |-> <<>>, c |-> <<>>]
        /\ root = <<1, 2>> /\ next = 3 /\ hist = <<>>

RECURSIVE AddrAt(_, _)
AddrAt(a, p) == IF p = <<>> THEN a ELSE AddrAt(heap[a].c[Head(p)][2], Tail(p))

RECURSIVE Paths(_)
Paths(d) == {<<>>} \cup UNION {{<<i>> \o p : p \in Paths(d.c[i].d)} : i \in 1..Len(d.c)}

(* copy of the tree at a: <<heap, address of the copy, next free address>> *)
RECURSIVE CopyTree(_, _, _), CopyList(_, _, _, _)
CopyTree(h, a, f) ==
    LET r == CopyList(h, h[a].c, <<>>, f)
    IN  <<r[3] :> [h[a] EXCEPT !.c = r[2]] @@ r[1], r[3], r[3] + 1>>
CopyList(h, cs, acc, f) ==
    IF cs = <<>> THEN <<h, acc, f>>
    ELSE LET r == CopyTree(h, Head(cs)[2], f)
         IN  CopyList(r[1], Tail(cs), Append(acc, <<Head(cs)[1], r[2]>>), r[3])

RECURSIVE Tree(_, _)
Tree(h, a) == [t |-> h[a].t, v |-> h[a].v, c |-> [i \in 1..Len(h[a].c) |-> [n |-> h[a].c[i][1], d |-> Tree(h, h[a].c[i][2])]]]

RECURSIVE Owned(_, _)
Owned(h, a) == {a} \cup UNION {Owned(h, h[a].c[i][2]) : i \in 1..Len(h[a].c)}

Step(o, h, r, f) ==
    /\ Len(hist) < N
    /\ docs' = Apply(docs, o) /\ hist' = Append(hist, o)
    /\ heap' = h /\ root' = r /\ next' = f

Ops(d, p) == {[op |-> "ins", d |-> d, p |-> p, n |-> n, s |-> One] : n \in Names}
             \cup {[op |-> "insn", d |-> d, p |-> p, n |-> <<97>>, t |-> "a"]}
Insert(d, p) == \E o \in Ops(d, p) :
    LET a == AddrAt(root[d], p) IN
    IF o.op = "ins" THEN Step(o, [heap EXCEPT ![a].v = Append(@, [n |-> o.n, s |-> o.s])], root, next)
    ELSE Step(o, next :> [t |-> "a", v |-> <<>>, c |-> <<>>] @@ [heap EXCEPT ![a].c = Append(@, <<o.n, next>>)], root, next + 1)

Copy(d, p) == \E e \in Docs : \E q \in Paths(docs[e]) :
    LET a == AddrAt(root[d], p)
        r == CopyTree(heap, AddrAt(root[e], q), next)
    IN  Step([op |-> "copy", d |-> d, p |-> p, e |-> e, q |-> q, n |-> <<98>>],
             [r[1] EXCEPT ![a].c = Append(@, <<<<98>>, r[2]>>)], root, r[3])

Erase(d, p) == \E k \in {"v", "c"} :
    LET a == AddrAt(root[d], p)
        sc == ScopeAt(docs[d], p) IN
    \/ \E i \in 1..Len(Items(sc, k)) :
         Step([op |-> "rmi", d |-> d, p |-> p, k |-> k, i |-> i],
              IF k = "v" THEN [heap EXCEPT ![a].v = Without(@, i)] ELSE [heap EXCEPT ![a].c = Without(@, i)], root, next)
    \/ \E n \in Names :
         LET i == IF \E j \in 1..Len(Items(sc, k)) : Items(sc, k)[j].n = n
                  THEN CHOOSE j \in 1..Len(Items(sc, k)) : Items(sc, k)[j].n = n /\ \A m \in 1..(j - 1) : Items(sc, k)[m].n # n
                  ELSE 0
         IN  i # 0 /\ Step([op |-> "rmn", d |-> d, p |-> p, k |-> k, n |-> n],
                 IF k = "v" THEN [heap EXCEPT ![a].v = Without(@, i)] ELSE [heap EXCEPT ![a].c = Without(@, i)], root, next)

Whole(d) ==
    \/ Step([op |-> "clear", d |-> d], next :> [t |-> heap[root[d]].t, v |-> <<>>, c |-> <<>>] @@ heap, [root EXCEPT ![d] = next], next + 1)
    \/ Step([op |-> "move", d |-> d, e |-> 3 - d], next :> [t |-> "o", v |-> <<>>, c |-> <<>>] @@ heap,
            [root EXCEPT ![d] = root[3 - d], ![3 - d] = next], next + 1)

Next == \E d \in Docs : Whole(d) \/ \E p \in Paths(docs[d]) : Insert(d, p) \/ Copy(d, p) \/ Erase(d, p)
Spec == Init /\ [][Next]_vars

Represents == \A d \in Docs : Tree(heap, root[d]) = docs[d]
OneParent ==
    /\ Owned(heap, root[1]) \cap Owned(heap, root[2]) = {}
    /\ \A d \in Docs : LET own == Owned(heap, root[d]) IN
         \A b \in own \ {root[d]} :
            Cardinality({<<a, i>> \in own \X (1..N + 1) : i <= Len(heap[a].c) /\ heap[a].c[i][2] = b}) = 1
Emit == IF Len(hist) = N THEN (IF Sample = 1 \/ RandomElement(1..Sample) = 1 THEN PrintT("SCRIPT " \o ToJson([ops |-> hist])) ELSE TRUE) ELSE TRUE
(* the histories matter, not the addresses *)
View == <<docs, hist>>
=============================================================================
