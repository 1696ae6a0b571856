------------------------------ MODULE MC_Chain ------------------------------
(***************************************************************************)
(* Chains of conversions as designed: a document is written and read again *)
(* in any format, any number of times.  Checked: what every hop may change *)
(* (names in arrays; binary data and the kind of numbers in JSON) happens  *)
(* once, and nothing else ever changes.                                    *)
(***************************************************************************)
EXTENDS Formats, TLC

OneHalf == Fp(<<63, 248, 0, 0, 0, 0, 0, 0>>)
Two     == Fp(<<64, 0, 0, 0, 0, 0, 0, 0>>)
A == <<97>>
Scalars == {Null, Bool(TRUE), IntV(TRUE, <<200, 1>>), IntV(FALSE, <<7>>), OneHalf, Two, Str(<<97, 34, 10, 195, 169>>),
            Bin(<<0, 255>>), Bin(<<>>), Str(<<>>)}
Upto(T, n) == UNION {[1..k -> T] : k \in 0..n}
Leaves(t, ss, n) == {[t |-> t, v |-> v, c |-> <<>>] : v \in Upto([n : {<<>>, A}, s : ss], n)}
Docs == UNION {Leaves(t, Scalars, 2) : t \in {"o", "a"}}
        \cup {[t |-> t, v |-> <<[n |-> A, s |-> Bin(<<1>>)]>>, c |-> c] : t \in {"o", "a"},
              c \in Upto([n : {<<>>, A}, d : Leaves("o", {Null, Two}, 1) \cup Leaves("a", {Null, Bin(<<3, 4, 5>>)}, 1)], 2)}

(* the encoders, without freedom *)
RECURSIVE VlqC(_)
VlqC(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o VlqC(n \div 128)
PosIn(tb, n) == IF \E i \in 1..Len(tb) : tb[i] = n THEN CHOOSE i \in 1..Len(tb) : tb[i] = n ELSE 0
SrlHead(f, n, t, tb) == IF t # "o" \/ n = <<>> THEN <<<<f>>, tb>>
                        ELSE IF PosIn(tb, n) > 0 THEN <<<<f + 6>> \o VlqC(PosIn(tb, n) - 1), tb>>
                        ELSE <<<<f + 2>> \o VlqC(Len(n)) \o n, Append(tb, n)>>
SrlBody(s) == CASE s.k = "n" -> <<8, <<>>>> [] s.k = "b" -> <<IF s.m = <<1>> THEN 65 ELSE 129, <<>>>>
                [] s.k = "i" -> <<1 + 8 * s.g, VlqC(SmallOf(s.m))>> [] s.k = "f" -> <<33, Reverse(s.m)>>
                [] s.k = "s" -> <<32, VlqC(Len(s.m)) \o s.m>> [] s.k = "x" -> <<16, VlqC(Len(s.m)) \o s.m>>
RECURSIVE SrlEnc(_, _, _, _)
SrlEnc(d, n, outer, tb) ==      \* <<bytes, table>>
    LET h == SrlHead(IF d.t = "o" THEN 64 ELSE 128, n, outer, tb)
        val(acc, x) == LET e == SrlHead(SrlBody(x.s)[1], x.n, d.t, acc[2]) IN <<acc[1] \o e[1] \o SrlBody(x.s)[2], e[2]>>
        kid(acc, x) == LET e == SrlEnc(x.d, x.n, d.t, acc[2]) IN <<acc[1] \o e[1], e[2]>>
        r == FoldLeft(kid, FoldLeft(val, h, d.v), d.c)
    IN  <<r[1] \o <<0>>, r[2]>>

MsgStr(m) == <<217, Len(m)>> \o m
MsgBody(s) == CASE s.k = "n" -> <<192>> [] s.k = "b" -> <<194 + s.m[1]>>
                [] s.k = "i" -> (IF s.g = 1 THEN LET v == 65536 - SmallOf(s.m) IN <<210, 255, 255, v \div 256, v % 256>>
                                 ELSE <<206, 0, 0, SmallOf(s.m) \div 256, SmallOf(s.m) % 256>>)
                [] s.k = "f" -> <<203>> \o s.m [] s.k = "s" -> MsgStr(s.m) [] s.k = "x" -> <<196, Len(s.m)>> \o s.m
RECURSIVE MsgEnc(_)
MsgEnc(d) ==
    LET nm(n) == IF d.t = "o" THEN MsgStr(n) ELSE <<>>
    IN  <<IF d.t = "o" THEN 223 ELSE 221, 0, 0, 0, Len(d.v) + Len(d.c)>>
        \o FlattenSeq([i \in 1..Len(d.v) |-> nm(d.v[i].n) \o MsgBody(d.v[i].s)])
        \o FlattenSeq([i \in 1..Len(d.c) |-> nm(d.c[i].n) \o MsgEnc(d.c[i].d)])

JText(m) == <<34>> \o FlattenSeq([i \in 1..Len(m) |->
                IF m[i] < 32 THEN <<92, 117, 48, 48, HexDigit(m[i] \div 16), HexDigit(m[i] % 16)>>
                ELSE IF m[i] \in {34, 92} THEN <<92, m[i]>> ELSE <<m[i]>>]) \o <<34>>
Digits3(n) == <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
JBody(s) == CASE s.k = "n" -> <<110, 117, 108, 108>>
              [] s.k = "b" -> (IF s.m = <<1>> THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
              [] s.k = "i" -> (IF s.g = 1 THEN <<45>> ELSE <<>>) \o
                              (IF SmallOf(s.m) < 10 THEN <<48 + SmallOf(s.m)>> ELSE Digits3(SmallOf(s.m)))
              [] s = OneHalf -> <<49, 46, 53>> [] s = Two -> <<50>>
              [] s.k = "s" -> JText(s.m) [] s.k = "x" -> JText(Base64(s.m))
RECURSIVE JEnc(_)
JEnc(d) ==
    LET nm(n) == IF d.t = "o" THEN JText(n) \o <<58>> ELSE <<>>
        items == [i \in 1..Len(d.v) |-> nm(d.v[i].n) \o JBody(d.v[i].s)] \o
                 [i \in 1..Len(d.c) |-> nm(d.c[i].n) \o JEnc(d.c[i].d)]
        sep == [i \in 1..Len(items) |-> IF i > 1 THEN <<44>> \o items[i] ELSE items[i]]
    IN  (IF d.t = "o" THEN <<123>> ELSE <<91>>) \o FlattenSeq(sep) \o (IF d.t = "o" THEN <<125>> ELSE <<93>>)

Encoded(fmt, d) == CASE fmt = "srl" -> SrlEnc(d, <<>>, "", <<>>)[1] [] fmt = "msg" -> MsgEnc(d) [] fmt = "json" -> JEnc(d)

None == [t |-> "none", v |-> <<>>, c |-> <<>>]
RECURSIVE DecItems(_, _, _, _, _, _)
DecItems(fmt, b, p, f, tb, acc) ==
    LET it == Item(fmt, b, p, f, tb)
        left == IF f.left > 0 THEN f.left - 1 ELSE 0
        val == IF it.s.k # "num" THEN it.s
               ELSE CHOOSE s \in {x \in Scalars : x.k \in {"i", "f"}} : NumTextReadAs(it.s.num, s)
        two == IntV(FALSE, <<2>>)
        val2 == IF it.s.k = "num" /\ it.s.num.plain /\ it.s.num.D = <<2>> THEN two ELSE val
    IN  CASE it.st = "no"  -> <<None, 0, tb>>
          [] it.st = "end" -> <<acc, it.next, it.tab>>
          [] it.st = "val" -> DecItems(fmt, b, it.next, [f EXCEPT !.nv = @ + 1, !.left = left], it.tab,
                                       [acc EXCEPT !.v = Append(@, [n |-> it.n, s |-> val2])])
          [] it.st = "open" ->
                LET sub == DecItems(fmt, b, it.next, Frame(it.t, it.left), it.tab, Scope(it.t))
                IN  IF sub[1] = None THEN sub
                    ELSE DecItems(fmt, b, sub[2], [f EXCEPT !.nc = @ + 1, !.left = left], sub[3],
                                  [acc EXCEPT !.c = Append(@, [n |-> it.n, d |-> sub[1]])])
Decoded(fmt, b) == LET it == Item(fmt, b, 1, NoFrame, <<>>)
                   IN  DecItems(fmt, b, it.next, Frame(it.t, it.left), it.tab, Scope(it.t))[1]

VARIABLES orig, cur, last, json     \* original, current document; last format; was JSON among the formats?
vars == <<orig, cur, last, json>>
Init == orig \in Docs /\ cur = orig /\ last = "" /\ json = FALSE
Convert(fmt) == LET d == Decoded(fmt, Encoded(fmt, cur)) IN
    /\ d # None
    /\ Assert(DocBack(fmt, cur, d), <<"hop", fmt, cur, d>>)
    /\ cur' = d /\ last' = fmt /\ json' = (json \/ fmt = "json") /\ orig' = orig
ToSrl == Convert("srl")
ToMsg == Convert("msg")
ToJson2 == Convert("json")
Next == ToSrl \/ ToMsg \/ ToJson2
Spec == Init /\ [][Next]_vars

(* what a chain does in total *)
EndToEnd == last # "" => DocBack(IF json THEN "json" ELSE "srl", orig, cur)
(* a second conversion changes nothing any more *)
Settles == [][last # "" /\ json' = json => cur' = cur]_vars
=============================================================================
