------------------------------ MODULE MC_Typed ------------------------------
(***************************************************************************)
(* The rules for storing and restoring (module Types) fit together: for    *)
(* every type and value in a small universe, what an object is stored as   *)
(* is accepted by the same type and yields that value and no other; no     *)
(* two different values are stored as the same item; and for every item    *)
(* that results from damaging a stored one, or from storing a value of     *)
(* another type, restoring either has to fail or yields one value only.    *)
(* The machine stores an object, possibly damages what it was stored as,   *)
(* and restores it as an object of some type.                              *)
(***************************************************************************)
EXTENDS Types, FiniteSets
CONSTANTS Deep          \* nested types, too

T(y) == [y |-> y]
E(y, e) == [y |-> y, e |-> e]
F(n, opt, ty) == [n |-> <<n>>, opt |-> opt, ty |-> ty]

Leaf == {T("u8"), T("bool"), T("s8"), T("a8"), T("f64"), T("byt")}
Obj(f) == [y |-> "dyn", pos |-> FALSE, f |-> f]
Pos(f) == [y |-> "dyn", pos |-> TRUE, f |-> f]
Level1(S) ==
    {E(y, e) : y \in {"vec", "set", "upt", "ptr", "ht"}, e \in S}
    \cup {[y |-> "map", key |-> T("u8"), e |-> e] : e \in S}
    \cup {[y |-> "pair", e |-> e, o |-> T("s8")] : e \in S}
    \cup {Obj(<<F(97, FALSE, e), F(98, TRUE, T("u8"))>>) : e \in S}
    \cup {Pos(<<F(97, FALSE, e), F(98, FALSE, T("u8"))>>) : e \in S}
Arr1 == {E("arr1", e) : e \in {T("u8"), T("s8")}}
Some == {T("u8"), T("s8")}
(* no pointers to null, no sets of objects: they do not exist *)
Usable(ty) == ~(ty.y = "set" /\ ty.e.y \notin Leafs)
Types1 == {ty \in Level1(Leaf) \cup Arr1 : Usable(ty)}
Types2 == {ty \in Level1({E("vec", T("u8")), Obj(<<F(97, FALSE, T("u8"))>>), E("upt", T("s8")), E("ht", T("u8"))}) : Usable(ty)}
AllTypes == Leaf \cup Types1 \cup (IF Deep THEN Types2 ELSE {})

U8s == {IntV(FALSE, <<>>), IntV(FALSE, <<255>>)}
LeafValues(t) == CASE t = "u8" -> U8s
                   [] t = "bool" -> {Bool(TRUE), Bool(FALSE)}
                   [] t \in {"s8", "a8"} -> {Str(<<>>), Str(<<55>>)}
                   [] t = "f64" -> {Fp(FZero), Fp(<<63, 224, 0, 0, 0, 0, 0, 0>>)}     \* 0, 0.5
                   [] t = "byt" -> {Bin(<<>>), Bin(<<55>>)}
Seqs2(S) == {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a \in S, b \in S}
Keyed(K, S) == {<<>>} \cup {<<<<k, a>>>> : k \in K, a \in S}
               \cup {<<<<k, a>>, <<j, b>>>> : k \in K, j \in K, a \in S, b \in S}
RECURSIVE Vals(_)
Vals(ty) ==
    CASE ty.y \in Leafs -> LeafValues(ty.y)
      [] ty.y \in {"vec"} -> {L(s) : s \in Seqs2(Vals(ty.e))}
      [] ty.y = "set" -> {L(s) : s \in {q \in Seqs2(Vals(ty.e)) : Distinct(q)}}
      [] ty.y = "arr1" -> {L(<<v>>) : v \in Vals(ty.e)}
      [] ty.y = "upt" -> {[k |-> "P", e |-> <<v>>] : v \in Vals(ty.e)}
      [] ty.y = "ptr" -> {[k |-> "P", e |-> <<v>>] : v \in Vals(ty.e)} \cup {[k |-> "P", e |-> <<>>]}
      [] ty.y = "ht"  -> {M(s) : s \in {q \in Keyed({Str(<<97>>), Str(<<>>)}, Vals(ty.e)) : Distinct([i \in DOMAIN q |-> q[i][1]])}}
      [] ty.y = "map" -> {M(s) : s \in {q \in Keyed(Vals(ty.key), Vals(ty.e)) : Distinct([i \in DOMAIN q |-> q[i][1]])}}
      [] ty.y = "pair" -> {L(<<a, b>>) : a \in Vals(ty.e), b \in Vals(ty.o)}
      [] ty.y = "dyn" -> IF Len(ty.f) = 1 THEN {L(<<a>>) : a \in Vals(ty.f[1].ty)}
                         ELSE {L(<<a, b>>) : a \in Vals(ty.f[1].ty), b \in Vals(ty.f[2].ty)}

(* what an object is stored as *)
RECURSIVE AsItem(_, _)
Scope_(t, named) == \* named: sequence of <<name, item>>
    LET vs == SelectSeq(named, LAMBDA x : x[2].k = "v")
        cs == SelectSeq(named, LAMBDA x : x[2].k = "c")
    IN  Node([t |-> t, v |-> [i \in 1..Len(vs) |-> [n |-> vs[i][1], s |-> vs[i][2].s]],
                       c |-> [i \in 1..Len(cs) |-> [n |-> cs[i][1], d |-> cs[i][2].d]]])
AsItem(ty, val) ==
    CASE ty.y \in Leafs -> Value(val)
      [] ty.y \in {"upt", "ptr"} -> (IF val.e = <<>> THEN Value(Null) ELSE AsItem(ty.e, val.e[1]))
      [] ty.y \in {"vec", "set", "arr1"} -> Scope_("a", [i \in 1..Len(val.e) |-> <<<<>>, AsItem(ty.e, val.e[i])>>])
      [] ty.y = "ht" -> Scope_("o", [i \in 1..Len(val.e) |-> <<val.e[i][1].m, AsItem(ty.e, val.e[i][2])>>])
      [] ty.y = "map" -> Scope_("a", [i \in 1..Len(val.e) |-> <<<<>>,
             Scope_("o", <<<<KeyName, AsItem(ty.key, val.e[i][1])>>, <<ValueName, AsItem(ty.e, val.e[i][2])>>>>)>>])
      [] OTHER -> LET f == FieldsOf(ty) IN
             Scope_("o", [i \in 1..Len(f) |-> <<IF ByPosition(ty) THEN <<>> ELSE f[i].n, AsItem(f[i].ty, val.e[i])>>])

(* a null pointer to a scope is stored as a value, where fields of the scope's kind are looked for *)
RECURSIVE NullScope(_, _)
NullScope(ty, val) ==
    CASE ty.y \in Leafs -> FALSE
      [] ty.y = "ptr" -> IF val.e = <<>> THEN Kind(ty.e) = "c" ELSE NullScope(ty.e, val.e[1])
      [] ty.y \in {"map", "ht"} -> \E i \in 1..Len(val.e) : NullScope(ty.e, val.e[i][2])
      [] Fixed(ty) -> \E i \in 1..Len(val.e) : NullScope(FieldsOf(ty)[i].ty, val.e[i])
      [] OTHER -> \E i \in 1..Len(val.e) : NullScope(ty.e, val.e[i])

(* items with one thing changed *)
Other == {Null, Bool(TRUE), IntV(FALSE, <<0, 1>>), IntV(TRUE, <<1>>), Str(<<120>>), Str(<<55, 55, 55, 55, 55, 55, 55, 55>>), Fp(<<63, 224, 0, 0, 0, 0, 0, 0>>), Bin(<<55>>)}
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE Damaged(_)
Damaged(it) ==
    IF it.k = "v" THEN {Value(s) : s \in Other} \cup {Node([t |-> "o", v |-> <<>>, c |-> <<>>])}
    ELSE {Value(Null), Node([it.d EXCEPT !.t = IF it.d.t = "o" THEN "a" ELSE "o"])}
      \cup {Node([it.d EXCEPT !.v = Drop(@, i)]) : i \in 1..Len(it.d.v)}
      \cup {Node([it.d EXCEPT !.c = Drop(@, i)]) : i \in 1..Len(it.d.c)}
      \cup {Node([it.d EXCEPT !.v[i].n = <<122>>]) : i \in 1..Len(it.d.v)}
      \cup {Node([it.d EXCEPT !.v[i].s = s]) : i \in 1..Len(it.d.v), s \in Other}
      \cup {Node([it.d EXCEPT !.c[i].d = x.d]) : x \in {y \in UNION {Damaged(Node(it.d.c[j].d)) : j \in 1..Len(it.d.c)} : y.k = "c"}, i \in 1..Len(it.d.c)}

-----------------------------------------------------------------------------
VARIABLES ty,     \* the type that is stored
          val, item, phase,
          to      \* the type that is restored
vars == <<ty, val, item, phase, to>>

Nothing == Value(Null)
Init == ty \in AllTypes /\ val \in Vals(ty) /\ item = Nothing /\ phase = "new" /\ to = ty
Store  == phase = "new" /\ item' = AsItem(ty, val) /\ phase' = "stored" /\ UNCHANGED <<ty, val, to>>
Damage == phase = "stored" /\ item' \in Damaged(item) /\ phase' = "damaged" /\ UNCHANGED <<ty, val, to>>
Retarget == phase = "stored" /\ to' \in Leaf \cup {t \in Types1 : Kind(t) = item.k} /\ phase' = "damaged" /\ UNCHANGED <<ty, val, item>>
Next == Store \/ Damage \/ Retarget
Spec == Init /\ [][Next]_vars

Restores(t, it) == {v \in Vals(t) : Gives(t, it, Default(t), v, <<>>)}
OneOf(t, S) == \A a, b \in S : SameVal(t, a, b)

Denotes == phase = "stored" =>
    /\ StoredAs(ty, val, item)
    /\ \A v \in Vals(ty) : StoredAs(ty, v, item) => SameVal(ty, v, val)
Returns == phase = "stored" /\ ~NullScope(ty, val) =>
    /\ ~Fails(ty, item, FALSE, <<>>)
    /\ val \in Restores(ty, item)
    /\ OneOf(ty, Restores(ty, item))
Judged == phase = "damaged" =>
    /\ Fails(to, item, TRUE, <<>>) => Fails(to, item, FALSE, <<>>)
    /\ ~Fails(to, item, TRUE, <<>>) => OneOf(to, Restores(to, item))
=============================================================================
