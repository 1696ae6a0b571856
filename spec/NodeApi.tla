------------------------------ MODULE NodeApi -------------------------------
(***************************************************************************)
(* Semantics of the document API.  State: a sequence of documents.  An     *)
(* operation is a record; its field op selects the meaning:                *)
(*                                                                         *)
(*   mutations (of document d, at the scope with path p)                   *)
(*     ins    append value s named n                                       *)
(*     insn   append an empty scope of type t named n                      *)
(*     doc    append a copy of the scope x (a literal) named n             *)
(*     copy   append a copy of scope q of document e, named n              *)
(*     copyv  append a copy of value number i of scope q of document e     *)
(*     rmi    remove item number i of kind k, if there is one              *)
(*     rmp    the same, by pointer                                         *)
(*     rmn    remove the first item of kind k named n, if there is one     *)
(*     clear  d loses its content; its root keeps its type                 *)
(*     new    d is replaced with an empty document of type t               *)
(*     move   d gets what e held, e becomes an empty object document       *)
(*     wr     d becomes what document e is after writing and reading it    *)
(*            in the Srl format                                            *)
(*     obj    the object x (any document) is loaded into d                 *)
(*   queries                                                               *)
(*     val, node, get, tget, has   by index i or name n (by = "i" / "n")   *)
(*     find, all                   items of kind k (rec: recursively)      *)
(*     info                        type, name and numbers of items         *)
(***************************************************************************)
EXTENDS SrlDoc

RECURSIVE Update(_, _, _)
(* d with the scope at path p replaced with x *)
Update(d, p, x) ==
    IF p = <<>> THEN x
    ELSE [d EXCEPT !.c[Head(p)].d = Update(@, Tail(p), x)]

Without(s, i) == IF i \in 1..Len(s) THEN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) ELSE s

(* 0, if there is no item of that name *)
FirstNamed(s, n) == IF \E i \in 1..Len(s) : s[i].n = n
                    THEN CHOOSE i \in 1..Len(s) : s[i].n = n /\ \A j \in 1..(i - 1) : s[j].n # n
                    ELSE 0
AddV(sc, n, s) == [sc EXCEPT !.v = Append(@, [n |-> n, s |-> s])]
AddC(sc, n, x) == [sc EXCEPT !.c = Append(@, [n |-> n, d |-> x])]
Drop(sc, k, i) == IF k = "v" THEN [sc EXCEPT !.v = Without(@, i)] ELSE [sc EXCEPT !.c = Without(@, i)]
Items(sc, k)   == IF k = "v" THEN sc.v ELSE sc.c

RECURSIVE Written(_)          \* what is left after writing and reading in the Srl format
Written(d) == [t |-> d.t,
               v |-> [i \in 1..Len(d.v) |-> [n |-> WrittenName(d.t, d.v[i].n), s |-> d.v[i].s]],
               c |-> [i \in 1..Len(d.c) |-> [n |-> WrittenName(d.t, d.c[i].n), d |-> Written(d.c[i].d)]]]

Mutations == {"ins", "insn", "doc", "copy", "copyv", "rmi", "rmp", "rmn", "clear", "new", "move", "wr", "obj"}

At(docs, o) == ScopeAt(docs[o.d], o.p)
From(docs, o) == ScopeAt(docs[o.e], o.q)
NewScope(docs, o) ==
    LET sc == At(docs, o) IN
    CASE o.op = "ins"   -> AddV(sc, o.n, o.s)
      [] o.op = "insn"  -> AddC(sc, o.n, Scope(o.t))
      [] o.op = "doc"   -> AddC(sc, o.n, o.x)
      [] o.op = "copy"  -> AddC(sc, o.n, From(docs, o))
      [] o.op = "copyv" -> AddV(sc, o.n, From(docs, o).v[o.i].s)
      [] o.op \in {"rmi", "rmp"} -> Drop(sc, o.k, o.i)
      [] o.op = "rmn"   -> Drop(sc, o.k, FirstNamed(Items(sc, o.k), o.n))

(* Documents after a mutation *)
Apply(docs, o) ==
    CASE o.op = "clear" -> [docs EXCEPT ![o.d] = Scope(@.t)]
      [] o.op = "new"   -> [docs EXCEPT ![o.d] = Scope(o.t)]
      [] o.op = "obj"   -> [docs EXCEPT ![o.d] = o.x]
      [] o.op = "move"  -> [docs EXCEPT ![o.d] = docs[o.e], ![o.e] = Scope("o")]
      [] o.op = "wr"    -> [docs EXCEPT ![o.d] = Written(docs[o.e])]
      [] OTHER          -> [docs EXCEPT ![o.d] = Update(@, o.p, NewScope(docs, o))]

-----------------------------------------------------------------------------
(* Queries.  The result of a query is [st |-> "ok", r |-> ...] or [st |-> "exc"] *)
AValue(s) == [k |-> "v", s |-> s]
ANode(x)  == [k |-> "c", d |-> x]

RECURSIVE AllNodes(_, _), AllValues(_, _)
AllNodes(sc, rec) == FlattenSeq([i \in 1..Len(sc.c) |-> <<sc.c[i]>> \o (IF rec THEN AllNodes(sc.c[i].d, TRUE) ELSE <<>>)])
AllValues(sc, rec) ==
    LET ns == AllNodes(sc, TRUE) IN
    sc.v \o (IF rec THEN FlattenSeq([i \in 1..Len(ns) |-> ns[i].d.v]) ELSE <<>>)
AllOf(sc, k, rec) == IF k = "v" THEN AllValues(sc, rec) ELSE AllNodes(sc, rec)

IndexOf(s, o) == IF o.by = "i" THEN (IF o.i \in 1..Len(s) THEN o.i ELSE 0) ELSE FirstNamed(s, o.n)
Found(sc, o) ==               \* result of get: 0 items or 1
    LET iv == IndexOf(sc.v, o)
        ic == IndexOf(sc.c, o)
        v == IF iv = 0 THEN <<>> ELSE <<AValue(sc.v[iv].s)>>
        c == IF ic = 0 THEN <<>> ELSE <<ANode(sc.c[ic].d)>>
    IN  IF o.by = "i" THEN (IF c # <<>> THEN c ELSE v) ELSE (IF v # <<>> THEN v ELSE c)

NameAt(d, p) == IF p = <<>> THEN <<>> ELSE ScopeAt(d, SubSeq(p, 1, Len(p) - 1)).c[p[Len(p)]].n

Answer(docs, o) ==
    LET sc == At(docs, o)
        iv == IndexOf(sc.v, o)
        ic == IndexOf(sc.c, o)
        f  == Found(sc, o)
        sel == SelectSeq(AllOf(sc, o.k, o.rec), LAMBDA x : x.n = o.n)
        Ok(r) == [st |-> "ok", r |-> r]
        Exc == [st |-> "exc"]
    IN  CASE o.op = "val"  -> (IF iv = 0 THEN Exc ELSE Ok(AValue(sc.v[iv].s)))
          [] o.op = "node" -> (IF ic = 0 THEN Exc ELSE Ok(ANode(sc.c[ic].d)))
          [] o.op = "get"  -> (IF f = <<>> THEN Exc ELSE Ok(f[1]))
          [] o.op = "tget" -> Ok(f)
          [] o.op = "has"  -> Ok([v |-> FirstNamed(sc.v, o.n) # 0, c |-> FirstNamed(sc.c, o.n) # 0])
          [] o.op = "find" -> Ok(sel)
          [] o.op = "all"  -> Ok(AllOf(sc, o.k, o.rec))
          [] o.op = "info" -> Ok([t |-> sc.t, n |-> NameAt(docs[o.d], o.p), nv |-> Len(sc.v), nc |-> Len(sc.c)])
=============================================================================
