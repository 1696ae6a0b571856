-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Graphs of shared objects.  An object is [k |-> kind, v |-> value,       *)
(* f |-> lists of objects, one per field]; objects are numbered, the first *)
(* is the root.  What can be observed of a graph is the sequence in which  *)
(* its references are met: tokens [t |-> "c", n] (how many follow),        *)
(* [t |-> "n", k, v] (an object met for the first time, its fields         *)
(* follow), [t |-> "r", n] (the n-th object again).                        *)
(***************************************************************************)
EXTENDS SrlDoc, TLC

FieldsOfKind(k) == CASE k = "root" -> <<"o", "w", "s", "b", "m", "pa", "i", "in", "ou">>
                     [] k = "o" -> <<"o", "w", "s", "b", "m">>
                     [] k = "pa" -> <<"o">>
                     [] k = "pb" -> <<"b", "w">>
                     [] OTHER -> <<>>

Pos(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN CHOOSE i \in DOMAIN s : s[i] = x ELSE 0
Count_(n) == [t |-> "c", n |-> n]
Again(n) == [t |-> "r", n |-> n]
New(k, v) == [t |-> "n", k |-> k, v |-> v]

(* todo: objects and numbers of references to come *)
Todo(o) == FlattenSeq([i \in 1..Len(o.f) |-> <<[c |-> TRUE, x |-> Len(o.f[i])]>> \o [j \in 1..Len(o.f[i]) |-> [c |-> FALSE, x |-> o.f[i][j]]]])
RECURSIVE Walk(_, _, _, _)
Walk(g, todo, seen, out) ==
    IF todo = <<>> THEN out
    ELSE LET h == Head(todo) IN
         IF h.c THEN Walk(g, Tail(todo), seen, Append(out, Count_(h.x)))
         ELSE IF Pos(seen, h.x) > 0 THEN Walk(g, Tail(todo), seen, Append(out, Again(Pos(seen, h.x))))
         ELSE LET o == g[h.x + 1] IN Walk(g, Todo(o) \o Tail(todo), Append(seen, h.x), Append(out, New(o.k, o.v)))
Seen(g) == Walk(g, Todo(g[1]), <<>>, <<>>)

-----------------------------------------------------------------------------
(* The same of a document, following keys instead of references; fails     *)
(* (token "bad") if it is not of the prescribed form                       *)
KeyName    == <<115, 114, 108, 95, 115, 104, 97, 114, 101, 100, 95, 107, 101, 121>>
ValueName  == <<115, 114, 108, 95, 115, 104, 97, 114, 101, 100, 95, 118, 97, 108, 117, 101>>
TypeName   == <<115, 114, 108, 95, 116, 121, 112, 101, 95, 105, 100>>
EntryKey   == <<107, 101, 121>>
EntryValue == <<118, 97, 108, 117, 101>>
NameOf(field) == CASE field = "pa" -> <<112, 97>> [] field = "o" -> <<111>> [] field = "w" -> <<119>> [] field = "s" -> <<115>>
                   [] field = "b" -> <<98>> [] field = "m" -> <<109>> [] field = "i" -> <<105>>
                   [] field = "in" -> <<105, 110>> [] field = "ou" -> <<111, 117>>
ElemKind(field) == CASE field \in {"o", "w", "m"} -> "o" [] field = "in" -> "n" [] field = "ou" -> "u" [] OTHER -> field
V(d, n) == IF \E i \in 1..Len(d.v) : d.v[i].n = n THEN <<d.v[CHOOSE i \in 1..Len(d.v) : d.v[i].n = n].s>> ELSE <<>>
C(d, n) == IF \E i \in 1..Len(d.c) : d.c[i].n = n THEN <<d.c[CHOOSE i \in 1..Len(d.c) : d.c[i].n = n].d>> ELSE <<>>
Bad == <<[t |-> "bad"]>>

KindOfId(id, types) == IF \E i \in DOMAIN types : types[i].id = id THEN types[CHOOSE i \in DOMAIN types : types[i].id = id].k ELSE "bad"
(* references in a field: the documents they are stored as *)
RefsIn(d, k, field) ==
    LET x == C(d, NameOf(field)) IN
    IF x = <<>> \/ x[1].v # <<>> THEN [ok |-> FALSE, e |-> <<>>]
    ELSE LET e == [i \in 1..Len(x[1].c) |-> IF field # "m" THEN <<x[1].c[i].d>>
                                            ELSE IF V(x[1].c[i].d, EntryKey) = <<[k |-> "s", g |-> 0, m |-> <<107, 47 + i>>]>> THEN C(x[1].c[i].d, EntryValue) ELSE <<>>]
         IN  IF \E i \in DOMAIN e : e[i] = <<>> THEN [ok |-> FALSE, e |-> <<>>]
             ELSE [ok |-> TRUE, e |-> [i \in DOMAIN e |-> [c |-> 0, d |-> e[i][1], k |-> IF k = "pb" /\ field = "w" THEN "b" ELSE ElemKind(field)]]]
TodoDoc(d, k) ==
    LET fs == FieldsOfKind(k)
        r == [i \in DOMAIN fs |-> RefsIn(d, k, fs[i])]
    IN  IF (\E i \in DOMAIN fs : ~r[i].ok) \/ Len(d.c) # Len(fs) THEN <<[c |-> 2]>>
        ELSE FlattenSeq([i \in DOMAIN fs |-> <<[c |-> 1, n |-> Len(r[i].e)]>> \o r[i].e])

RECURSIVE WalkDoc(_, _, _, _)
WalkDoc(types, todo, keys, out) ==
    IF todo = <<>> THEN out
    ELSE LET h == Head(todo) IN
         IF h.c = 1 THEN WalkDoc(types, Tail(todo), keys, Append(out, Count_(h.n)))
         ELSE IF h.c = 2 \/ h.d.t # "o" \/ V(h.d, KeyName) = <<>> THEN Bad
         ELSE LET key == V(h.d, KeyName)[1]
                  again == Pos(keys, key)
                  val == C(h.d, ValueName)
                  lit == V(h.d, ValueName)
                  items == Len(h.d.v) + Len(h.d.c)
              IN  IF again > 0 THEN (IF items = 1 THEN WalkDoc(types, Tail(todo), keys, Append(out, Again(again))) ELSE Bad)
                  ELSE IF items # 2 THEN Bad
                  ELSE IF h.k \in {"s", "i"} THEN
                       IF lit = <<>> THEN Bad ELSE WalkDoc(types, Tail(todo), Append(keys, key), Append(out, New(h.k, lit[1])))
                  ELSE IF val = <<>> THEN Bad
                  ELSE LET d == val[1]
                           id == V(d, TypeName)
                           k == IF h.k \in {"o", "n", "u"} THEN h.k ELSE IF id = <<>> THEN "bad" ELSE KindOfId(id[1].m, types)
                           v == V(d, IF k \in {"o", "n", "u"} THEN <<105, 100>> ELSE <<118>>)
                       IN  IF k = "bad" \/ v = <<>> \/ Len(d.v) # (IF k \in {"o", "n"} THEN 1 ELSE 2) THEN Bad
                           ELSE WalkDoc(types, TodoDoc(d, k) \o Tail(todo), Append(keys, key), Append(out, New(k, v[1])))
SeenInDoc(d, types) == IF d.t # "o" \/ d.v # <<>> THEN Bad ELSE WalkDoc(types, TodoDoc(d, "root"), <<>>, <<>>)
=============================================================================
