------------------------------ MODULE MC_Wire -------------------------------
(***************************************************************************)
(* The formats as designed: an encoder that may take any legal choice      *)
(* (order of values and nodes, widths, references to names, escapes, white *)
(* space), for every document of a small universe.  Checked: whatever the  *)
(* choices, the encoding denotes the document, and no proper prefix        *)
(* denotes anything.  Every encoding is printed, and replayed into the     *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Formats, TLC, Json, FiniteSets

CONSTANTS Fmt,      \* "srl", "msg", "json"
          Size      \* 1: small, 2: larger universe

A == <<97>>
Names == IF Size = 1 THEN {<<>>, A} ELSE {<<>>, A, <<195, 169>>}

OneHalf == Fp(<<63, 248, 0, 0, 0, 0, 0, 0>>)
Tenth   == Fp(<<63, 185, 153, 153, 153, 153, 153, 154>>)
Scalars == {Null, Bool(TRUE), IntV(TRUE, <<1>>), IntV(FALSE, <<200>>), OneHalf, Str(<<97, 34>>)}
           \cup (IF Fmt = "json" THEN {} ELSE {Bin(<<0, 255>>)})
           \cup (IF Size = 1 THEN {} ELSE {Tenth, Bool(FALSE), IntV(FALSE, <<>>), IntV(TRUE, <<0, 1>>), Str(<<>>), Str(<<195, 169>>)})
Few == {Null, IntV(FALSE, <<200>>)}

NameIn(t) == IF t = "a" THEN {<<>>} ELSE Names
Val(ns, ss) == [n : ns, s : ss]
Upto(T, n) == UNION {[1..k -> T] : k \in 0..n}
Leaves(t, ss, n) == {[t |-> t, v |-> v, c |-> <<>>] : v \in Upto(Val(NameIn(t), ss), n)}
Kids(t, n) == Upto([n : NameIn(t), d : Leaves("o", {Null}, 1) \cup Leaves("a", {Null}, 1)], n)
Docs == UNION {Leaves(t, Scalars, 1) : t \in {"o", "a"}}
        \cup UNION {Leaves(t, Few \cup {Str(<<97, 34>>)}, 2) : t \in {"o", "a"}}
        \cup UNION {{[t |-> t, v |-> v, c |-> c] : v \in Upto(Val(NameIn(t), {IntV(FALSE, <<200>>)}), 1),
                                                  c \in Kids(t, IF Size = 1 THEN 1 ELSE 2)} : t \in {"o", "a"}}
-----------------------------------------------------------------------------
(* Legal encodings of parts *)
VlqOf(n) == LET min == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128, n \div 128>>
            IN  {min, [min EXCEPT ![Len(min)] = @ + 128] \o <<0>>}
F32Of(s) == IF s = OneHalf THEN <<63, 192, 0, 0>> ELSE <<>>

SrlNames(n, t, tb) ==          \* set of <<flag bits, bytes, table>>
    IF t # "o" \/ n = <<>> THEN {<<0, <<>>, tb>>}
    ELSE {<<2, q \o n, Append(tb, n)>> : q \in VlqOf(Len(n))}
         \cup {<<6, q, tb>> : q \in UNION {VlqOf(i - 1) : i \in {j \in 1..Len(tb) : tb[j] = n}}}
SrlVals(s) ==                  \* set of <<flag, bytes>>
    CASE s.k = "n" -> {<<8, <<>>>>}
      [] s.k = "b" -> {<<IF s.m = <<1>> THEN 65 ELSE 129, <<>>>>}
      [] s.k = "i" -> {<<1 + 8 * s.g, q>> : q \in VlqOf(SmallOf(s.m))}
      [] s.k = "f" -> {<<33, Reverse(s.m)>>} \cup (IF F32Of(s) # <<>> THEN {<<17, Reverse(F32Of(s))>>} ELSE {})
      [] s.k = "s" -> {<<32, q \o s.m>> : q \in VlqOf(Len(s.m))}
      [] s.k = "x" -> {<<16, q \o s.m>> : q \in VlqOf(Len(s.m))}

MsgStrs(m) == {<<160 + Len(m)>> \o m, <<217, Len(m)>> \o m, <<218, 0, Len(m)>> \o m, <<219, 0, 0, 0, Len(m)>> \o m}
MsgVals(s) ==
    CASE s.k = "n" -> {<<192>>}
      [] s.k = "b" -> {<<IF s.m = <<1>> THEN 195 ELSE 194>>}
      [] s.k = "i" /\ s.m = <<1>> /\ s.g = 1 -> {<<255>>, <<208, 255>>, <<209, 255, 255>>, <<210, 255, 255, 255, 255>>,
                                     <<211, 255, 255, 255, 255, 255, 255, 255, 255>>}
      [] s.k = "i" /\ s.m = <<0, 1>> /\ s.g = 1 -> {<<209, 255, 0>>, <<210, 255, 255, 255, 0>>}
      [] s.k = "i" /\ s.m = <<200>> -> {<<204, 200>>, <<205, 0, 200>>, <<206, 0, 0, 0, 200>>, <<207, 0, 0, 0, 0, 0, 0, 0, 200>>,
                                     <<209, 0, 200>>, <<210, 0, 0, 0, 200>>, <<211, 0, 0, 0, 0, 0, 0, 0, 200>>}
      [] s.k = "i" /\ s.m = <<>> -> {<<0>>, <<204, 0>>, <<208, 0>>, <<211, 0, 0, 0, 0, 0, 0, 0, 0>>}
      [] s.k = "f" -> {<<203>> \o s.m} \cup (IF F32Of(s) # <<>> THEN {<<202>> \o F32Of(s)} ELSE {})
      [] s.k = "s" -> MsgStrs(s.m)
      [] s.k = "x" -> {<<196, Len(s.m)>> \o s.m, <<197, 0, Len(s.m)>> \o s.m, <<198, 0, 0, 0, Len(s.m)>> \o s.m}
MsgScopes(t, n) == IF t = "o" THEN {<<128 + n>>, <<222, 0, n>>, <<223, 0, 0, 0, n>>}
                   ELSE {<<144 + n>>, <<220, 0, n>>, <<221, 0, 0, 0, n>>}

JChar(c) == LET u == <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
            IN  IF c = 34 THEN {<<92, 34>>, u} ELSE IF c < 128 THEN {<<c>>, u} ELSE {<<c>>}
RECURSIVE JChars(_)
JChars(m) == IF m = <<>> THEN {<<>>} ELSE {x \o y : x \in JChar(Head(m)), y \in JChars(Tail(m))}
JStrs(m) == {<<34>> \o x \o <<34>> : x \in JChars(m)}
JVals(s) ==
    CASE s.k = "n" -> {<<110, 117, 108, 108>>}
      [] s.k = "b" -> {IF s.m = <<1>> THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>}
      [] s = IntV(TRUE, <<1>>) -> {<<45, 49>>}
      [] s = IntV(FALSE, <<200>>) -> {<<50, 48, 48>>}
      [] s = IntV(FALSE, <<>>) -> {<<48>>, <<45, 48>>}
      [] s = IntV(TRUE, <<0, 1>>) -> {<<45, 50, 53, 54>>}
      [] s = OneHalf -> {<<49, 46, 53>>, <<49, 46, 53, 48>>, <<49, 53, 101, 45, 49>>, <<48, 46, 49, 53, 69, 43, 49>>}
      [] s = Tenth -> {<<48, 46, 49>>, <<49, 69, 45, 49>>}
      [] s.k = "s" -> JStrs(s.m)
Ws == IF Size = 1 THEN {<<>>, <<10>>} ELSE {<<>>, <<32, 10>>}
-----------------------------------------------------------------------------
VARIABLES doc, out, fr, tab, fin
vars == <<doc, out, fr, tab, fin>>

Cur == ScopeAt(doc, PathOf(fr))
TopF == fr[Len(fr)]
Fresh == TopF.nv + TopF.nc = 0
Comma == IF Fresh THEN {<<>>} ELSE {<<44>>}

Heads(n, t) == CASE Fmt = "srl" -> SrlNames(n, t, tab)
                 [] Fmt = "msg" -> IF t = "o" THEN {<<0, m, <<>>>> : m \in MsgStrs(n)} ELSE {<<0, <<>>, <<>>>>}
                 [] Fmt = "json" -> {<<0, k \o w \o nm \o x, <<>>>> :
                                        k \in Comma, w \in Ws,
                                        nm \in (IF t = "o" THEN JStrs(n) ELSE {<<>>}),
                                        x \in (IF t = "o" THEN {<<58>>, <<58, 9>>} ELSE {<<>>})}

Enc(h, bodies) == {IF Fmt = "srl" THEN <<<<h[1] + b[1]>> \o h[2] \o b[2], h[3]>> ELSE <<h[2] \o b, h[3]>> : b \in bodies}

Openings(d) == CASE Fmt = "srl" -> {<<IF d.t = "o" THEN 64 ELSE 128, <<>>>>}
                 [] Fmt = "msg" -> MsgScopes(d.t, Len(d.v) + Len(d.c))
                 [] Fmt = "json" -> {IF d.t = "o" THEN <<123>> ELSE <<91>>}
Bodies(s) == CASE Fmt = "srl" -> SrlVals(s) [] Fmt = "msg" -> MsgVals(s) [] Fmt = "json" -> JVals(s)
Closing(t) == CASE Fmt = "srl" -> {<<0>>} [] Fmt = "msg" -> {<<>>}
                [] Fmt = "json" -> {w \o (IF t = "o" THEN <<125>> ELSE <<93>>) : w \in Ws}

Init == /\ doc \in Docs
        /\ fr = <<Frame(doc.t, 0)>> /\ tab = <<>> /\ fin = FALSE
        /\ \E o \in Openings(doc) : out = (IF Fmt = "srl" THEN <<o[1]>> ELSE o)

WriteValue ==
    /\ ~fin /\ TopF.nv < Len(Cur.v)
    /\ LET x == Cur.v[TopF.nv + 1] IN
       \E h \in Heads(x.n, Cur.t) : \E e \in Enc(h, Bodies(x.s)) :
          /\ out' = out \o e[1]
          /\ tab' = e[2]
    /\ fr' = [fr EXCEPT ![Len(fr)].nv = @ + 1]
    /\ UNCHANGED <<doc, fin>>

OpenNode ==
    /\ ~fin /\ TopF.nc < Len(Cur.c)
    /\ LET x == Cur.c[TopF.nc + 1] IN
       /\ \E h \in Heads(x.n, Cur.t) : \E e \in Enc(h, Openings(x.d)) :
             /\ out' = out \o e[1]
             /\ tab' = e[2]
       /\ fr' = Append([fr EXCEPT ![Len(fr)].nc = @ + 1], Frame(x.d.t, 0))
    /\ UNCHANGED <<doc, fin>>

CloseScope ==
    /\ ~fin /\ TopF.nv = Len(Cur.v) /\ TopF.nc = Len(Cur.c)
    /\ \E w \in Closing(Cur.t) : out' = out \o w
    /\ fr' = Front(fr)
    /\ fin' = (Len(fr) = 1)
    /\ UNCHANGED <<doc, tab>>

Next == WriteValue \/ OpenNode \/ CloseScope
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Decoder: folds the items of Formats into a document *)
None == [t |-> "none", v |-> <<>>, c |-> <<>>]

(* items of a scope of type t from position p on: <<scope, next, table>> *)
RECURSIVE DecItems(_, _, _, _, _)
DecItems(b, p, f, tb, acc) ==
    LET it == Item(Fmt, b, p, f, tb)
        left == IF f.left > 0 THEN f.left - 1 ELSE 0
        num == IF it.s.k = "num"
               THEN (IF it.s.num.plain THEN CHOOSE s \in Scalars : s.k = "i" /\ NumTextReadAs(it.s.num, s)
                     ELSE CHOOSE s \in Scalars : s.k = "f" /\ NumTextReadAs(it.s.num, s))
               ELSE it.s
    IN  CASE it.st = "no"  -> <<None, 0, tb>>
          [] it.st = "end" -> <<acc, it.next, it.tab>>
          [] it.st = "val" -> DecItems(b, it.next, [f EXCEPT !.nv = @ + 1, !.left = left], it.tab,
                                       [acc EXCEPT !.v = Append(@, [n |-> it.n, s |-> num])])
          [] it.st = "open" ->
                LET sub == DecItems(b, it.next, Frame(it.t, it.left), it.tab, Scope(it.t))
                IN  IF sub[1] = None THEN sub
                    ELSE DecItems(b, sub[2], [f EXCEPT !.nc = @ + 1, !.left = left], sub[3],
                                  [acc EXCEPT !.c = Append(@, [n |-> it.n, d |-> sub[1]])])
Decode(b) ==
    LET it == Item(Fmt, b, 1, NoFrame, <<>>)
        r == DecItems(b, it.next, Frame(it.t, it.left), it.tab, Scope(it.t))
    IN  IF it.st # "open" THEN None
        ELSE IF r[1] # None /\ AtEnd(Fmt, b, r[2]) THEN r[1] ELSE None

(* the encoding denotes the document *)
Denotes == fin => Decode(out) = doc
(* nothing denotes a document before it is complete *)
PrefixFree == IF fin THEN \A k \in 0..(Len(out) - 1) : Decode(SubSeq(out, 1, k)) = None
              ELSE Fmt # "msg" => Decode(out) = None
Emit == ~fin \/ PrintT("SCRIPT " \o ToJson([b |-> out]))
=============================================================================
