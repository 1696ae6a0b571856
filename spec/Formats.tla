------------------------------ MODULE Formats -------------------------------
(***************************************************************************)
(* The three wire formats.  For each of them an operator reads one item    *)
(* from the bytes b at position p.  What an item means depends only on the *)
(* innermost open scope (its type; the number of items left; whether it    *)
(* holds items already) and, in the Srl format, on the table of names      *)
(* spelled out so far.                                                     *)
(*                                                                         *)
(* An item is a record                                                     *)
(*   st    "val", "open", "end" (of the scope), or "no": not well-formed   *)
(*   n     name                                                            *)
(*   s     scalar ("val").  A JSON number is [k |-> "num", num |-> ...]    *)
(*   t     scope type ("open")                                             *)
(*   left  number of items announced ("open", MessagePack)                 *)
(*   next  position of the byte following the item                         *)
(*   tab   table of names after the item (Srl)                             *)
(***************************************************************************)
EXTENDS SrlDoc, TLC

NoItem == [st |-> "no", n |-> <<>>, s |-> Null, t |-> "o", left |-> 0, next |-> 0, tab |-> <<>>]
ValItem(n, s, next, tab)  == [st |-> "val", n |-> n, s |-> s, t |-> "o", left |-> 0, next |-> next, tab |-> tab]
OpenItem(n, t, left, next, tab) == [st |-> "open", n |-> n, s |-> Null, t |-> t, left |-> left, next |-> next, tab |-> tab]
EndItem(next, tab) == [st |-> "end", n |-> <<>>, s |-> Null, t |-> "o", left |-> 0, next |-> next, tab |-> tab]

(* A float of 4 bytes (most significant first) as a double of 8 bytes *)
F32(b) ==
    LET sg == b[1] \div 128
        e  == (b[1] % 128) * 2 + b[2] \div 128
        m  == (b[2] % 128) * 65536 + b[3] * 256 + b[4]
        h  == CHOOSE i \in 0..22 : 2 ^ i <= m /\ m < 2 ^ (i + 1)
        E  == IF e = 255 THEN 2047
              ELSE IF e # 0 THEN e - 127 + 1023
              ELSE IF m = 0 THEN 0 ELSE h - 149 + 1023
        M  == IF e = 0 /\ m # 0 THEN m * 2 ^ (23 - h) - 8388608 ELSE m
    IN  <<sg * 128 + E \div 16, (E % 16) * 16 + M \div 524288, (M \div 2048) % 256,
          (M \div 8) % 256, (M % 8) * 32, 0, 0, 0>>

Slice(b, p, n) == SubSeq(b, p, p + n - 1)
Fits(b, p, n)  == p + n - 1 <= Len(b)

(* A magnitude as a number TLC can handle; more than 2^24 is more than any input holds *)
Huge == 16777216
SmallOf(m) == CASE Len(m) = 0 -> 0 [] Len(m) = 1 -> m[1] [] Len(m) = 2 -> m[1] + 256 * m[2]
                [] Len(m) = 3 -> m[1] + 256 * m[2] + 65536 * m[3] [] OTHER -> Huge

----------------------------- (* Srl binary *) ------------------------------
(* Variable length quantity at p: groups of 7 bits, least significant first *)
Vlq(b, p) ==
    LET last == Len(b) + 1
        q == CHOOSE q \in p..last : /\ q = last \/ b[q] < 128
                                    /\ \A i \in p..(q - 1) : b[i] >= 128
        n == q - p + 1
        bit(i) == IF i \div 7 < n THEN Bit(b[p + i \div 7], i % 7) ELSE 0
        byte(k) == bit(8 * k) + 2 * bit(8 * k + 1) + 4 * bit(8 * k + 2) + 8 * bit(8 * k + 3)
                   + 16 * bit(8 * k + 4) + 32 * bit(8 * k + 5) + 64 * bit(8 * k + 6) + 128 * bit(8 * k + 7)
        m == Strip0([k \in 1..((7 * n + 7) \div 8) |-> byte(k - 1)])
    IN  IF q = last \/ n > 10 \/ Len(m) > 8 THEN [ok |-> FALSE, m |-> <<>>, next |-> p]
        ELSE [ok |-> TRUE, m |-> m, next |-> q + 1]

Flag(f, i) == Bit(f, i) = 1

SrlItem(b, p, scope, tab) ==
    IF p > Len(b) THEN NoItem
    ELSE
    LET f == b[p]
        named == Flag(f, 1) /\ scope = "o"
        q0 == Vlq(b, p + 1)
        i0 == SmallOf(q0.m)
        nameok == ~named \/ (q0.ok /\ IF Flag(f, 2) THEN i0 < Len(tab) ELSE Fits(b, q0.next, i0))
    IN
    IF f = 0 THEN (IF scope = "" THEN NoItem ELSE EndItem(p + 1, tab))
    ELSE IF ~nameok THEN NoItem
    ELSE
    LET n  == IF ~named THEN <<>> ELSE IF Flag(f, 2) THEN tab[i0 + 1] ELSE Slice(b, q0.next, i0)
        tb == IF named /\ ~Flag(f, 2) THEN Append(tab, n) ELSE tab
        r  == IF ~named THEN p + 1 ELSE IF Flag(f, 2) THEN q0.next ELSE q0.next + i0
        v  == Vlq(b, r)
        sz == SmallOf(v.m)
        numflags == Bit(f, 4) + Bit(f, 5) + Bit(f, 6) + Bit(f, 7)
        nonflags == Bit(f, 3) + Bit(f, 4) + Bit(f, 5) + Bit(f, 6) + Bit(f, 7)
    IN
    IF Flag(f, 0) THEN
        IF numflags > 1 \/ (numflags = 1 /\ Flag(f, 3)) THEN NoItem
        ELSE IF Flag(f, 6) THEN ValItem(n, Bool(TRUE), r, tb)
        ELSE IF Flag(f, 7) THEN ValItem(n, Bool(FALSE), r, tb)
        ELSE IF Flag(f, 4) THEN
             IF Fits(b, r, 4) THEN ValItem(n, Fp(F32(Reverse(Slice(b, r, 4)))), r + 4, tb) ELSE NoItem
        ELSE IF Flag(f, 5) THEN
             IF Fits(b, r, 8) THEN ValItem(n, Fp(Reverse(Slice(b, r, 8))), r + 8, tb) ELSE NoItem
        ELSE IF ~v.ok THEN NoItem
        ELSE ValItem(n, IntV(Flag(f, 3), v.m), v.next, tb)
    ELSE
        IF nonflags # 1 THEN NoItem
        ELSE IF Flag(f, 3) THEN ValItem(n, Null, r, tb)
        ELSE IF Flag(f, 6) THEN OpenItem(n, "o", 0, r, tb)
        ELSE IF Flag(f, 7) THEN OpenItem(n, "a", 0, r, tb)
        ELSE IF ~v.ok \/ ~Fits(b, v.next, sz) THEN NoItem
        ELSE ValItem(n, IF Flag(f, 4) THEN Bin(Slice(b, v.next, sz)) ELSE Str(Slice(b, v.next, sz)),
                     v.next + sz, tb)

----------------------------- (* MessagePack *) -----------------------------
(* Two's complement, little endian, of a negative number: its magnitude *)
NegMag(le) ==
    LET i == CHOOSE i \in 1..Len(le) : le[i] # 0 /\ \A j \in 1..(i - 1) : le[j] = 0
    IN  Strip0([j \in 1..Len(le) |-> IF j < i THEN 0 ELSE IF j = i THEN 256 - le[j] ELSE 255 - le[j]])

SignedOf(be) == IF be[1] < 128 THEN IntV(FALSE, Strip0(Reverse(be))) ELSE IntV(TRUE, NegMag(Reverse(be)))
UnsignedOf(be) == IntV(FALSE, Strip0(Reverse(be)))

(* header of a string at p: number of header bytes and of content bytes *)
LenAt(b, p, w) == IF Fits(b, p + 1, w) THEN SmallOf(Strip0(Reverse(Slice(b, p + 1, w)))) ELSE Huge
StrHead(b, p) ==
    LET x == b[p] IN
    IF x \in 160..191 THEN <<1, x - 160>>
    ELSE IF x \in 217..219 THEN LET w == 2 ^ (x - 217) IN <<1 + w, LenAt(b, p, w)>>
    ELSE <<0, 0>>

MsgValue(b, p, n) ==
    LET x == b[p]
        sh == StrHead(b, p)
        bw == 2 ^ (x - 196)
        bl == LenAt(b, p, bw)
        num(w) == Slice(b, p + 1, w)
        scope(t, w) == IF Fits(b, p + 1, w) THEN OpenItem(n, t, LenAt(b, p, w), p + 1 + w, <<>>) ELSE NoItem
    IN
    IF x < 128 THEN ValItem(n, IntV(FALSE, Strip0(<<x>>)), p + 1, <<>>)
    ELSE IF x < 144 THEN OpenItem(n, "o", x - 128, p + 1, <<>>)
    ELSE IF x < 160 THEN OpenItem(n, "a", x - 144, p + 1, <<>>)
    ELSE IF x < 192 \/ x \in 217..219 THEN
        IF Fits(b, p + sh[1], sh[2]) THEN ValItem(n, Str(Slice(b, p + sh[1], sh[2])), p + sh[1] + sh[2], <<>>) ELSE NoItem
    ELSE IF x = 192 THEN ValItem(n, Null, p + 1, <<>>)
    ELSE IF x = 194 \/ x = 195 THEN ValItem(n, Bool(x = 195), p + 1, <<>>)
    ELSE IF x \in 196..198 THEN
        IF Fits(b, p + 1 + bw, bl) THEN ValItem(n, Bin(Slice(b, p + 1 + bw, bl)), p + 1 + bw + bl, <<>>) ELSE NoItem
    ELSE IF x = 202 THEN (IF Fits(b, p + 1, 4) THEN ValItem(n, Fp(F32(num(4))), p + 5, <<>>) ELSE NoItem)
    ELSE IF x = 203 THEN (IF Fits(b, p + 1, 8) THEN ValItem(n, Fp(num(8)), p + 9, <<>>) ELSE NoItem)
    ELSE IF x \in 204..207 THEN
        LET w == 2 ^ (x - 204) IN
        IF Fits(b, p + 1, w) THEN ValItem(n, UnsignedOf(num(w)), p + 1 + w, <<>>) ELSE NoItem
    ELSE IF x \in 208..211 THEN
        LET w == 2 ^ (x - 208) IN
        IF Fits(b, p + 1, w) THEN ValItem(n, SignedOf(num(w)), p + 1 + w, <<>>) ELSE NoItem
    ELSE IF x = 220 THEN scope("a", 2)
    ELSE IF x = 221 THEN scope("a", 4)
    ELSE IF x = 222 THEN scope("o", 2)
    ELSE IF x = 223 THEN scope("o", 4)
    ELSE IF x >= 224 THEN ValItem(n, IntV(TRUE, <<256 - x>>), p + 1, <<>>)
    ELSE NoItem                                  \* 0xC1, extension types

(* The end of a scope takes no bytes: it is reached if no items are left *)
MsgItem(b, p, scope, left) ==
    IF scope # "" /\ left = 0 THEN EndItem(p, <<>>)
    ELSE IF p > Len(b) THEN NoItem
    ELSE IF scope # "o" THEN MsgValue(b, p, <<>>)
    ELSE LET sh == StrHead(b, p)
             q  == p + sh[1] + sh[2]
         IN  IF sh[1] = 0 \/ ~Fits(b, p + sh[1], sh[2]) \/ q > Len(b) THEN NoItem
             ELSE MsgValue(b, q, Slice(b, p + sh[1], sh[2]))

--------------------------------- (* JSON *) --------------------------------
JIsWs(c) == c \in {32, 9, 10, 13}
JWs(b, p) == SkipWhile(b, p, Len(b), JIsWs)
JAt(b, p) == IF p <= Len(b) THEN b[p] ELSE 0

JHex4(b, p) ==                     \* -1 if there are not four hex digits at p
    IF p + 3 > Len(b) \/ \E i \in 0..3 : HexVal(b[p + i]) < 0 THEN -1
    ELSE HexVal(b[p]) * 4096 + HexVal(b[p + 1]) * 256 + HexVal(b[p + 2]) * 16 + HexVal(b[p + 3])

(* The escape sequence at p: <<bytes, next position>>, next = 0 if invalid *)
JEscape(b, p) ==
    LET c == JAt(b, p + 1)
        u == JHex4(b, p + 2)
        lo == IF JAt(b, p + 6) = 92 /\ JAt(b, p + 7) = 117 THEN JHex4(b, p + 8) ELSE -1
        simple == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12
                    [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
    IN  IF simple >= 0 THEN <<<<simple>>, p + 2>>
        ELSE IF c # 117 \/ u < 0 THEN <<<<>>, 0>>
        ELSE IF ~IsSurrogate(u) THEN <<Utf8(u), p + 6>>
        ELSE IF u < 56320 /\ lo >= 56320 /\ lo <= 57343
             THEN <<Utf8(65536 + (u - 55296) * 1024 + (lo - 56320)), p + 12>>
        ELSE <<<<>>, 0>>

JBadStr == [ok |-> FALSE, m |-> <<>>, next |-> 0]
(* is the character at i >= p escaped, that is, preceded by an odd number of backslashes? *)
JEscaped(b, p, i) ==
    IF i = p \/ b[i - 1] # 92 THEN FALSE
    ELSE LET n == CHOOSE n \in 1..(i - p) : /\ i - n = p \/ b[i - n - 1] # 92
                                            /\ \A j \in 1..n : b[i - j] = 92
         IN  n % 2 = 1
JStops(b, p, i) == b[i] < 32 \/ (b[i] = 34 /\ ~JEscaped(b, p, i))
(* What the character at i of the string contents p..q contributes, if there is an escape
   sequence in the string: all of the sequence for its first character, nothing for the others *)
JStarts(b, p, i) == IF i < p THEN FALSE ELSE b[i] = 92 /\ ~JEscaped(b, p, i)
JSize(b, i) == IF b[i + 1] = 117 THEN 6 ELSE 2
JLowHalf(b, p, i) == JStarts(b, p, i - 6) /\ b[i - 5] = 117 /\ JEscape(b, i - 6)[2] = i + 6
JInside(b, p, i) == \E d \in 1..5 : JStarts(b, p, i - d) /\ d < JSize(b, i - d)
JPart(b, p, i) ==
    IF JStarts(b, p, i) THEN (IF JLowHalf(b, p, i) THEN <<TRUE, <<>>>>
                              ELSE LET e == JEscape(b, i) IN <<e[2] # 0, e[1]>>)
    ELSE IF JInside(b, p, i) THEN <<TRUE, <<>>>>
    ELSE <<TRUE, <<b[i]>>>>

JContents(b, p) ==
    LET last == Len(b) + 1
        q == CHOOSE q \in p..last : /\ q = last \/ JStops(b, p, q)
                                    /\ \A i \in p..(q - 1) : ~JStops(b, p, i)
        plain == \A i \in p..(q - 1) : b[i] # 92
        parts == TLCEval([i \in 1..(q - p) |-> JPart(b, p, p + i - 1)])
    IN  IF q = last \/ b[q] < 32 THEN JBadStr
        ELSE IF plain THEN [ok |-> TRUE, m |-> SubSeq(b, p, q - 1), next |-> q + 1]
        ELSE IF \E i \in 1..(q - p) : ~parts[i][1] THEN JBadStr
        ELSE [ok |-> TRUE, m |-> Flatten2([i \in 1..(q - p) |-> parts[i][2]]), next |-> q + 1]
(* the string whose opening quote is at p *)
JStr(b, p) == IF JAt(b, p) # 34 THEN JBadStr ELSE TLCEval(JContents(b, p + 1))

JIsNumChar(c) == IsDigit(c) \/ c \in {43, 45, 46, 69, 101}
JIsAlpha(c) == c \in 97..122
JValue(b, p, n) ==
    LET c == JAt(b, p)
        str == JStr(b, p)
        q == SkipWhile(b, p, Len(b), JIsNumChar)
        num == ParseNum(b, p, q - 1, TRUE)
        w == SkipWhile(b, p, Len(b), JIsAlpha)
        word == SubSeq(b, p, w - 1)
    IN  IF c = 123 THEN OpenItem(n, "o", 0, p + 1, <<>>)
        ELSE IF c = 91 THEN OpenItem(n, "a", 0, p + 1, <<>>)
        ELSE IF c = 34 THEN (IF str.ok THEN ValItem(n, Str(str.m), str.next, <<>>) ELSE NoItem)
        ELSE IF c = 45 \/ IsDigit(c) THEN
             (IF num.ok THEN ValItem(n, [k |-> "num", num |-> num], q, <<>>) ELSE NoItem)
        ELSE IF word = <<116, 114, 117, 101>> THEN ValItem(n, Bool(TRUE), w, <<>>)
        ELSE IF word = <<102, 97, 108, 115, 101>> THEN ValItem(n, Bool(FALSE), w, <<>>)
        ELSE IF word = <<110, 117, 108, 108>> THEN ValItem(n, Null, w, <<>>)
        ELSE NoItem

(* fresh: no item of the scope was read yet *)
JsonItem(b, p0, scope, fresh) ==
    LET p == JWs(b, p0)
        c == JAt(b, p)
        close == IF scope = "a" THEN 93 ELSE 125
        q == IF fresh THEN p ELSE JWs(b, p + 1)
        name == JStr(b, q)
        r == JWs(b, name.next)
    IN  IF scope = "" THEN (IF c \in {123, 91} THEN JValue(b, p, <<>>) ELSE NoItem)
        ELSE IF c = close THEN EndItem(p + 1, <<>>)
        ELSE IF ~fresh /\ c # 44 THEN NoItem
        ELSE IF scope = "a" THEN JValue(b, q, <<>>)
        ELSE IF ~name.ok \/ JAt(b, r) # 58 THEN NoItem
        ELSE JValue(b, JWs(b, r + 1), name.m)

-----------------------------------------------------------------------------
(* A frame describes an open scope: type, values and nodes so far, items left *)
Frame(t, left) == [t |-> t, nv |-> 0, nc |-> 0, left |-> left]
NoFrame == Frame("", 0)

Item(fmt, b, p, fr, tab) ==
    CASE fmt = "srl"  -> SrlItem(b, p, fr.t, tab)
      [] fmt = "msg"  -> MsgItem(b, p, fr.t, fr.left)
      [] fmt = "json" -> JsonItem(b, p, fr.t, fr.nv + fr.nc = 0)

(* What may follow the document *)
OnlyWs(b, p) == JWs(b, p) > Len(b)
AtEnd(fmt, b, p) == IF fmt = "json" THEN OnlyWs(b, p) ELSE p = Len(b) + 1

(* frames after an item (not an end) was read *)
CountItem(st, it) ==
    LET i == Len(st)
        fr == st[i]
        left == IF fr.left > 0 THEN fr.left - 1 ELSE 0
        fr2 == IF it.st = "val" THEN [fr EXCEPT !.nv = @ + 1, !.left = left]
               ELSE [fr EXCEPT !.nc = @ + 1, !.left = left]
    IN  IF i = 0 THEN st ELSE [st EXCEPT ![i] = fr2]

PathOf(st) == [i \in 1..(Len(st) - 1) |-> st[i].nc]

(* Does a scalar s that was written in the format / read from it agree with the item? *)
WrittenAs(item, s) ==            \* s was written as item
    IF item.k = "num" THEN s.k \in {"i", "f"} /\ NumTextDenotes(item.num, s)
    ELSE item = s \/ (item.k = "f" /\ s.k = "f" /\ SameFloat(item.m, s.m))
ReadAs(item, s) ==               \* item was read as s
    IF item.k = "num" THEN s.k \in {"i", "f"} /\ NumTextReadAs(item.num, s)
    ELSE item = s \/ (item.k = "f" /\ s.k = "f" /\ SameFloat(item.m, s.m))
(* JSON has no notation for binary data: base64 *)
AsWritten(fmt, s) == IF fmt = "json" /\ s.k = "x" THEN Str(Base64(s.m)) ELSE s
=============================================================================
