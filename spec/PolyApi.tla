------------------------------- MODULE PolyApi -------------------------------
(***************************************************************************)
(* Objects of registered classes behind pointers to their bases.           *)
(*                                                                         *)
(* An object is [c |-> class, f |-> values of its fields]; the values are  *)
(* scalars, or [k |-> "L", e |-> objects].  A registry is a sequence of    *)
(* [id |-> bytes, c |-> class], identifiers being distinct.                *)
(*                                                                         *)
(* Slots are variables holding such objects (sequences of them):           *)
(*   one   a pointer to base b: replaced once the object is complete       *)
(*   sh    a shared pointer: the object is known by a key from then on     *)
(*   all, shs, map   containers of pointers, of shared pointers, a map     *)
(***************************************************************************)
EXTENDS Types

F_(n, y) == [n |-> n, y |-> y]
NameV == <<118>>     NameS == <<115>>
NameMore == <<109, 111, 114, 101>>
NameKids == <<107, 105, 100, 115>>
TypeIdName == <<115, 114, 108, 95, 116, 121, 112, 101, 95, 105, 100>>
ClassFields(c) ==
    CASE c = "A" -> <<F_(NameV, "i32"), F_(NameS, "s8")>>
      [] c = "D" -> <<F_(NameV, "i32"), F_(NameS, "s8"), F_(NameMore, "i64")>>
      [] c = "B" -> <<F_(NameKids, "kids"), F_(NameV, "i64")>>
      [] c \in {"C", "F", "G", "Z"} -> <<F_(NameV, "i64")>>
      [] c = "E" -> <<F_(NameS, "s8")>>
      [] c = "T" -> <<F_(NameV, "i32")>>
      [] c = "N" -> <<>>
(* bases, and the class itself *)
Is_(c, b) == CASE b = "Base" -> c # "Z" [] b = "Other" -> c = "Z" [] b = "A" -> c \in {"A", "D"}

Slot(n, w, b) == [n |-> n, w |-> w, b |-> b]
Slots == << Slot(<<114, 97, 119>>, "one", "Base"), Slot(<<117, 110, 105>>, "one", "Base"), Slot(<<115, 104, 97>>, "sh", "Base"),
            Slot(<<114, 97>>, "one", "A"), Slot(<<117, 97>>, "one", "A"), Slot(<<115, 97>>, "sh", "A"),
            Slot(<<111, 116, 104>>, "one", "Other"), Slot(<<115, 111, 116, 104>>, "sh", "Other"),
            Slot(<<118, 101, 99>>, "all", "Base"), Slot(<<118, 115, 104>>, "shs", "Base"), Slot(<<118, 114, 97>>, "all", "Base"),
            Slot(<<109, 97, 112>>, "map", "Base") >>

ClassOf(reg, id) == IF \E i \in DOMAIN reg : reg[i].id = id THEN <<reg[CHOOSE i \in DOMAIN reg : reg[i].id = id].c>> ELSE <<>>
(* an identifier is read as text *)
IdOf(s) == CASE s.k = "s" -> <<s.m>> [] s.k = "i" /\ Len(s.m) <= 1 /\ s.g = 0 -> <<(<<48 + (IF s.m = <<>> THEN 0 ELSE s.m[1])>>)>>
             [] s.k = "b" -> <<IF s.m[1] = 1 THEN TrueText ELSE FalseText>> [] s.k = "n" -> << <<>> >> [] OTHER -> <<>>
Class(reg, d) == LET x == Named(d, "v", TypeIdName) IN
                 IF x = <<>> \/ IdOf(x[1].s) = <<>> THEN <<>> ELSE ClassOf(reg, IdOf(x[1].s)[1])

(* Does restoring an object derived from b from scope d fail? *)
RECURSIVE ObjFails(_, _, _)
ObjFails(reg, b, d) ==
    LET c == Class(reg, d) IN
    IF c = <<>> THEN TRUE
    ELSE IF ~Is_(c[1], b) THEN TRUE
    ELSE LET f == ClassFields(c[1]) IN
         \/ \E i \in DOMAIN f :
            IF f[i].y = "kids" THEN LET x == Named(d, "c", f[i].n) IN
                                    x = <<>> \/ \E j \in 1..Len(x[1].d.c) : ObjFails(reg, "Base", x[1].d.c[j].d)
            ELSE LET x == Named(d, "v", f[i].n) IN x = <<>> \/ LeafMust(f[i].y, x[1].s, <<>>)
         \/ c[1] = "T" /\ LeafRes("i32", Named(d, "v", NameV)[1].s, Null, IntV(FALSE, <<13>>), <<>>)
(* The object restored from scope d *)
RECURSIVE ObjGives(_, _, _)
ObjGives(reg, d, o) ==
    LET c == Class(reg, d)[1]
        f == ClassFields(c)
    IN  /\ o.c = c /\ Len(o.f) = Len(f)
        /\ \A i \in DOMAIN f :
           IF f[i].y = "kids" THEN LET x == Named(d, "c", f[i].n)[1].d IN
                                   Len(o.f[i].e) = Len(x.c) /\ \A j \in 1..Len(x.c) : ObjGives(reg, x.c[j].d, o.f[i].e[j])
           ELSE LeafRes(f[i].y, Named(d, "v", f[i].n)[1].s, Str(<<>>), o.f[i], <<>>)

(* A shared pointer: [fail, tab]; o is the object it points to afterwards. *)
(* The table has the objects known by their keys.                          *)
KeyOf(d) == LET x == Named(d, "v", SharedKey) IN IF x = <<>> \/ x[1].s.k # "i" THEN <<>> ELSE <<x[1].s.m>>
Entry(tab, key) == IF \E i \in DOMAIN tab : tab[i].key = key THEN <<tab[CHOOSE i \in DOMAIN tab : tab[i].key = key].o>> ELSE <<>>
(* (the table may know of classes only)                                    *)
ShFails(reg, b, d, tab) ==
    IF KeyOf(d) = <<>> THEN TRUE
    ELSE LET e == Entry(tab, KeyOf(d)[1])
             x == Named(d, "c", SharedValue)
         IN  IF e # <<>> /\ x = <<>> THEN ~Is_(e[1].c, b)
             ELSE x = <<>> \/ ObjFails(reg, b, x[1].d)
ShGives(reg, d, o, tab) ==
    LET e == Entry(tab, KeyOf(d)[1])
        x == Named(d, "c", SharedValue)
    IN  IF x = <<>> THEN o = e[1] ELSE ObjGives(reg, x[1].d, o)
ShTab(d, o, tab) == IF Entry(tab, KeyOf(d)[1]) # <<>> THEN tab ELSE Append(tab, [key |-> KeyOf(d)[1], o |-> o])

(* all of a container *)
RECURSIVE SharedsFail(_, _, _, _)
SharedsFail(reg, b, ds, tab) ==
    IF ds = <<>> THEN FALSE
    ELSE IF ShFails(reg, b, Head(ds), tab) THEN TRUE
    ELSE LET x == Named(Head(ds), "c", SharedValue) IN
         SharedsFail(reg, b, Tail(ds), IF x = <<>> THEN tab ELSE ShTab(Head(ds), [c |-> Class(reg, x[1].d)[1]], tab))
(* r has the objects in it *)
RECURSIVE Shareds(_, _, _, _, _)
Shareds(reg, b, ds, r, tab) ==
    LET Res(good) == [fail |-> FALSE, good |-> good, tab |-> tab] IN
    IF ds = <<>> THEN Res(r = <<>>)
    ELSE IF r = <<>> THEN Res(FALSE)
    ELSE IF ~ShGives(reg, Head(ds), Head(r), tab) THEN Res(FALSE)
    ELSE Shareds(reg, b, Tail(ds), Tail(r), ShTab(Head(ds), Head(r), tab))

(* A slot that held old and holds r afterwards: [fail, good, tab] *)
SlotGets(reg, s, d, old, r, tab) ==
    LET Res(fail, good, t) == [fail |-> fail, good |-> good, tab |-> t] IN
    IF s.w = "one" THEN (IF ObjFails(reg, s.b, d) THEN Res(TRUE, r = old, tab)
                         ELSE Res(FALSE, (IF Len(r) = 1 THEN ObjGives(reg, d, r[1]) ELSE FALSE), tab))
    ELSE IF s.w = "sh" THEN
        (IF d.t # "o" THEN Res(TRUE, r = old, tab)
         ELSE IF ShFails(reg, s.b, d, tab) THEN Res(TRUE, r = old, tab)
         ELSE IF Len(r) # 1 THEN Res(FALSE, FALSE, tab)
         ELSE IF ShGives(reg, d, r[1], tab) THEN Res(FALSE, TRUE, ShTab(d, r[1], tab)) ELSE Res(FALSE, FALSE, tab))
    ELSE IF s.w = "all" THEN
        (IF \E j \in 1..Len(d.c) : ObjFails(reg, s.b, d.c[j].d) THEN Res(TRUE, TRUE, tab)
         ELSE Res(FALSE, (IF Len(r) = Len(d.c) THEN \A j \in 1..Len(d.c) : ObjGives(reg, d.c[j].d, r[j]) ELSE FALSE), tab))
    ELSE LET of(j) == IF s.w = "shs" THEN <<d.c[j].d>>
                      ELSE LET e == d.c[j].d IN
                           IF Named(e, "v", KeyName) = <<>> \/ Named(e, "c", ValueName) = <<>> THEN <<>> ELSE <<Named(e, "c", ValueName)[1].d>>
             ds == [j \in 1..Len(d.c) |-> of(j)]
         IN  IF \E j \in DOMAIN ds : ds[j] = <<>> THEN Res(TRUE, TRUE, tab)
             ELSE IF SharedsFail(reg, s.b, [j \in DOMAIN ds |-> ds[j][1]], tab) THEN Res(TRUE, TRUE, tab)
             ELSE Shareds(reg, s.b, [j \in DOMAIN ds |-> ds[j][1]], r, tab)

(* Restoring the slots one after the other from document d, up to the first *)
(* one that fails: [st, good]                                               *)
RECURSIVE Restored(_, _, _, _, _, _)
Restored(reg, d, old, r, k, tab) ==
    IF k > Len(Slots) THEN [st |-> "ok", good |-> TRUE]
    ELSE LET x == Named(d, "c", Slots[k].n) IN
         IF x = <<>> THEN (IF r[k] = old[k] THEN Restored(reg, d, old, r, k + 1, tab) ELSE [st |-> "ok", good |-> FALSE])
         ELSE LET s == SlotGets(reg, Slots[k], x[1].d, old[k], r[k], tab) IN
              IF s.fail THEN [st |-> "exc", good |-> s.good /\ \A j \in (k + 1)..Len(Slots) : r[j] = old[j]]
              ELSE IF ~s.good THEN [st |-> "ok", good |-> FALSE]
              ELSE Restored(reg, d, old, r, k + 1, s.tab)

Nothing == [k \in 1..Len(Slots) |-> <<>>]
(* no more than the fields of the objects *)
RECURSIVE Exact(_, _)
Exact(o, d) ==
    LET f == ClassFields(o.c)
        kids == {i \in DOMAIN f : f[i].y = "kids"}
    IN  /\ Len(d.v) = 1 + Cardinality(DOMAIN f \ kids) /\ Len(d.c) = Cardinality(kids)
        /\ \A i \in kids : LET x == Named(d, "c", f[i].n)[1].d IN x.v = <<>> /\ \A j \in 1..Len(x.c) : Exact(o.f[i].e[j], x.c[j].d)
(* The document the slots are stored as: null pointers are values *)
StoredSlots(reg, d, r) ==
    /\ d.t = "o"
    /\ Restored(reg, d, Nothing, r, 1, <<>>) = [st |-> "ok", good |-> TRUE]
    /\ \A k \in DOMAIN Slots : LET n == Named(d, "v", Slots[k].n)
                                   c == Named(d, "c", Slots[k].n)
                               IN  IF Slots[k].w \in {"one", "sh"} /\ r[k] = <<>> THEN n = <<Value(Null)>> /\ c = <<>>
                                   ELSE /\ n = <<>> /\ c # <<>>
                                        /\ Slots[k].w = "one" => Exact(r[k][1], c[1].d)
                                        /\ Slots[k].w = "all" => \A j \in DOMAIN r[k] : Exact(r[k][j], c[1].d.c[j].d)
                                        /\ Slots[k].w = "sh" => Exact(r[k][1], Named(c[1].d, "c", SharedValue)[1].d)
    /\ Len(d.v) + Len(d.c) = Len(Slots)
(* pointers that must not be null when stored *)
Storable(r) == \A k \in {2, 5, 7} : r[k] # <<>>

(* the registry *)
Register(reg, id, c) == IF ClassOf(reg, id) # <<>> THEN [st |-> "exc", reg |-> reg] ELSE [st |-> "ok", reg |-> Append(reg, [id |-> id, c |-> c])]
=============================================================================
