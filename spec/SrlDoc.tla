------------------------------- MODULE SrlDoc -------------------------------
(***************************************************************************)
(* The data model.  A document is a tree of scopes.                        *)
(*                                                                         *)
(*   scope   [t |-> "o" (object) or "a" (array),                           *)
(*            v |-> sequence of [n |-> name, s |-> scalar],                *)
(*            c |-> sequence of [n |-> name, d |-> scope]]                 *)
(*                                                                         *)
(*   scalar  [k |-> kind, g |-> 0/1, m |-> bytes]                          *)
(*     "n" null   m = <<>>        "b" bool  m = <<0>> or <<1>>             *)
(*     "i" integer, "f" floating point: see module Num                     *)
(*     "s" text   m = UTF-8       "x" binary  m = the bytes                *)
(*                                                                         *)
(* Names are UTF-8 byte sequences.                                         *)
(***************************************************************************)
EXTENDS Num, Text

Null    == [k |-> "n", g |-> 0, m |-> <<>>]
Bool(b) == [k |-> "b", g |-> 0, m |-> <<IF b THEN 1 ELSE 0>>]
IntV(neg, m) == [k |-> "i", g |-> IF neg /\ m # <<>> THEN 1 ELSE 0, m |-> m]
Fp(m)   == [k |-> "f", g |-> 0, m |-> m]
Str(m)  == [k |-> "s", g |-> 0, m |-> m]
Bin(m)  == [k |-> "x", g |-> 0, m |-> m]

Scope(t) == [t |-> t, v |-> <<>>, c |-> <<>>]

(* The scope reached by following node indices *)
RECURSIVE ScopeAt(_, _)
ScopeAt(d, path) == IF path = <<>> THEN d ELSE ScopeAt(d.c[Head(path)].d, Tail(path))

RECURSIVE Strip0(_)
Strip0(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Strip0(SubSeq(m, 1, Len(m) - 1))

(* Names get lost in arrays when a document is written *)
WrittenName(t, n) == IF t = "a" THEN <<>> ELSE n

(* Is the scalar s read back as r, if written in the format? *)
SameFloat(a, b) == a = b \/ (DNaN(a) /\ DNaN(b))
(* In JSON, a floating point number comes back as itself, or as an integer  *)
(* that is the same number if read as floating point (large numbers are    *)
(* written with as many digits as needed for that, and zeros)              *)
FloatBack(s, r) ==
    IF r.k = "f" THEN r.m = s.m \/ (DZero(r.m) /\ DZero(s.m))
    ELSE /\ r.k = "i"
         /\ DFinite(s.m) /\ RoundsTo(BOfBytes(r.m), 0, s.m)
         /\ (r.m = <<>> \/ r.g = DSign(s.m))
ScalarBack(fmt, s, r) ==
    IF fmt = "json" THEN
        CASE s.k = "x" -> r = Str(Base64(s.m))
          [] s.k = "i" -> r.k \in {"i", "f"} /\ NumEq(s, r)
          [] s.k = "f" -> FloatBack(s, r)
          [] OTHER -> r = s
    ELSE IF s.k = "f" THEN r.k = "f" /\ SameFloat(s.m, r.m)
    ELSE r = s

RECURSIVE DocBack(_, _, _)
DocBack(fmt, d, r) ==
    /\ r.t = d.t
    /\ Len(r.v) = Len(d.v)
    /\ Len(r.c) = Len(d.c)
    /\ \A i \in 1..Len(d.v) : /\ r.v[i].n = WrittenName(d.t, d.v[i].n)
                              /\ ScalarBack(fmt, d.v[i].s, r.v[i].s)
    /\ \A i \in 1..Len(d.c) : /\ r.c[i].n = WrittenName(d.t, d.c[i].n)
                              /\ DocBack(fmt, d.c[i].d, r.c[i].d)

(* Depth of nesting below the scope *)
RECURSIVE Depth(_)
Depth(d) == IF d.c = <<>> THEN 0
            ELSE 1 + CHOOSE m \in {Depth(d.c[i].d) : i \in 1..Len(d.c)} :
                        \A i \in 1..Len(d.c) : Depth(d.c[i].d) <= m
=============================================================================
