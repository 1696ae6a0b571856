------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* What documents C++ objects are stored as, and what restoring from a     *)
(* document yields.                                                        *)
(*                                                                         *)
(* A type is a record with the kind in field y:                            *)
(*   i8 u8 i16 u16 i32 u32 i64 u64 bool      integers                      *)
(*   f32 f64 ld                              floating point                *)
(*   s8 s16 s32 sw    c8 c16 c32 cw          strings, single characters    *)
(*   a8 a16 a32                              arrays of 8 characters        *)
(*   bin byt v16 v32                         binary data, in elements of   *)
(*                                           1, 2, 4 bytes                 *)
(*   dyn two   f: fields [n, opt, ty, i: value held before], pos: by       *)
(*             position                      user types                    *)
(*   vec list deq  set mset  arr arr1   e: type of the elements            *)
(*   map umap mmap  key, e                   maps                          *)
(*   ht  e                                   hash table with string keys   *)
(*   pair e o   tup o e p                    pair<E, O>, tuple<O, E, P>    *)
(*   upt spt ptr  e                          pointers                      *)
(*                                                                         *)
(* Values: scalars for the first groups (text always as UTF-8), and        *)
(*   [k |-> "L", e |-> sequence], [k |-> "M", e |-> sequence of pairs],    *)
(*   [k |-> "P", e |-> <<>> or <<value>>], [k |-> "D", e |-> <<>>] for a    *)
(*   user type that nothing was restored to                                *)
(***************************************************************************)
EXTENDS SrlDoc, TLC

Ints  == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
Fps   == {"f32", "f64", "ld"}
Nums  == Ints \cup Fps \cup {"bool"}
Strs  == {"s8", "s16", "s32", "sw"}
Chars == {"c8", "c16", "c32", "cw"}
Arrs  == {"a8", "a16", "a32"}
Bins  == {"bin", "byt", "v16", "v32"}
Leafs == Nums \cup Strs \cup Chars \cup Arrs \cup Bins
Users == {"dyn", "two"}
Seqs  == {"vec", "list", "deq"}
Ptrs  == {"upt", "spt", "ptr"}

Signed(t) == t \in {"i8", "i16", "i32", "i64"}
BitsOf(t) == CASE t \in {"i8", "u8"} -> 8 [] t \in {"i16", "u16"} -> 16
               [] t \in {"i32", "u32"} -> 32 [] t \in {"i64", "u64"} -> 64
Width(t) == CASE t \in {"bin", "byt"} -> 1 [] t = "v16" -> 2 [] t = "v32" -> 4
Enc(t)   == CASE t \in {"s8", "c8", "a8"} -> 8 [] t \in {"s16", "c16", "a16"} -> 16 [] OTHER -> 32

L(e) == [k |-> "L", e |-> e]
M(e) == [k |-> "M", e |-> e]

(* Is it stored as a value or as a scope? *)
RECURSIVE Kind(_)
Kind(ty) == IF ty.y \in Leafs THEN "v"
            ELSE IF ty.y \in {"upt", "ptr"} THEN Kind(ty.e)
            ELSE "c"

Str_(s) == [k |-> "s", g |-> 0, m |-> s]
KeyName   == <<107, 101, 121>>
ValueName == <<118, 97, 108, 117, 101>>
FirstName == <<102, 105, 114, 115, 116>>
SecondName == <<115, 101, 99, 111, 110, 100>>
SharedKey   == <<115, 114, 108, 95, 115, 104, 97, 114, 101, 100, 95, 107, 101, 121>>
SharedValue == <<115, 114, 108, 95, 115, 104, 97, 114, 101, 100, 95, 118, 97, 108, 117, 101>>

Value(s) == [k |-> "v", s |-> s]
Node(d)  == [k |-> "c", d |-> d]

First(s, n) == IF \E i \in 1..Len(s) : s[i].n = n
               THEN CHOOSE i \in 1..Len(s) : s[i].n = n /\ \A j \in 1..(i - 1) : s[j].n # n
               ELSE 0
(* items of a scope: <<item>> or <<>> *)
Named(d, kind, n) ==
    IF kind = "v" THEN LET i == First(d.v, n) IN IF i = 0 THEN <<>> ELSE <<Value(d.v[i].s)>>
    ELSE LET i == First(d.c, n) IN IF i = 0 THEN <<>> ELSE <<Node(d.c[i].d)>>
Nth(d, kind, i) ==
    IF kind = "v" THEN (IF i <= Len(d.v) THEN <<Value(d.v[i].s)>> ELSE <<>>)
    ELSE (IF i <= Len(d.c) THEN <<Node(d.c[i].d)>> ELSE <<>>)
ItemsOf(d, kind) == IF kind = "v" THEN [i \in 1..Len(d.v) |-> Value(d.v[i].s)]
                    ELSE [i \in 1..Len(d.c) |-> Node(d.c[i].d)]
NamesOf(d, kind) == IF kind = "v" THEN [i \in 1..Len(d.v) |-> d.v[i].n] ELSE [i \in 1..Len(d.c) |-> d.c[i].n]

-----------------------------------------------------------------------------
(* Numbers *)
FZero == <<0, 0, 0, 0, 0, 0, 0, 0>>
FOne  == <<63, 240, 0, 0, 0, 0, 0, 0>>

InInt(t, neg, D) ==
    IF Signed(t) THEN (IF neg THEN BCmp(D, BPow2(BitsOf(t) - 1)) <= 0 ELSE BCmp(D, BPow2(BitsOf(t) - 1)) < 0)
    ELSE (D = <<>> \/ ~neg) /\ BCmp(D, BPow2(BitsOf(t))) < 0

(* integral part of a finite double below 2^65, fraction? *)
DTooBig(f) == ~DFinite(f) \/ DE(f) > 12
DTrunc(f) == IF DZero(f) THEN <<>>
             ELSE IF DE(f) >= 0 THEN BMulPow2(DM(f), DE(f))
             ELSE IF DE(f) <= -53 THEN <<>>
             ELSE BOfBits(SubSeq(DBits(f), 1 - DE(f), 53))

(* Is the value of f beyond the limits of the type, though its integral part is not? *)
JustBeyond(t, f) ==
    /\ ~DIntegral(f)
    /\ \/ DSign(f) = 1 /\ (~Signed(t) \/ DTrunc(f) = BPow2(BitsOf(t) - 1))
       \/ DSign(f) = 0 /\ DTrunc(f) = BPred(BPow2(BitsOf(t) - (IF Signed(t) THEN 1 ELSE 0)))

(* r is the float nearest to M1 * 2^e1 (ties to even), for finite r; signs aside *)
RoundsTo32(M1, e1, r) ==
    LET e == DE(r)
        m == DM(r)
        u == IF e + 29 < -149 THEN -149 ELSE e + 29        \* exponent of the last place
        low == u - e                                       \* bits of r that have to be zero
        min3(a, b, c) == IF a <= b /\ a <= c THEN a ELSE IF b <= c THEN b ELSE c
        start == DBinadeStart(r) /\ e + 29 > -149
        x == min3(e1, e, u - 2)
        v == BMulPow2(M1, e1 - x)
        rr == BMulPow2(m, e - x)
        up == BCmp(v, BAdd(rr, BPow2(u - 1 - x)))
        down == BCmp(BAdd(v, BPow2((IF start THEN u - 2 ELSE u - 1) - x)), rr)
        even == m = <<>> \/ (low < 53 /\ DBits(r)[low + 1] = 0)
    IN  /\ m = <<>> \/ (low < 53 /\ \A i \in 1..low : DBits(r)[i] = 0)
        /\ IF even THEN up <= 0 /\ down >= 0 ELSE up < 0 /\ down > 0

(* 2^128 - 2^103: what rounds to something larger than the largest float *)
Float32Beyond(f) == DInf(f) \/ (DFinite(f) /\ DExp(f) >= 1023 + 127 /\
                       BCmp(BMulPow2(DM(f), DE(f) - 75), BOfBits([i \in 1..53 |-> IF i > 28 THEN 1 ELSE 0])) >= 0)
Float32Above(f) == DInf(f) \/ (DFinite(f) /\ DExp(f) >= 1023 + 127 /\
                       BCmp(BMulPow2(DM(f), DE(f) - 75), BOfBits([i \in 1..53 |-> IF i > 29 THEN 1 ELSE 0])) > 0)

(* Numbers found in a document, with integers as BigNats:                  *)
(*   [k |-> "i", g, D], [k |-> "f", m], [k |-> "b", b], [k |-> "n"],       *)
(*   [k |-> "no"] (not a number), [k |-> "any"] (there is no claim)        *)
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerCase(t) == [i \in DOMAIN t |-> Lower(t[i])]
IsSpace(c) == c = 32 \/ c \in 9..13
Trim(b) ==
    LET n == Len(b)
        p == CHOOSE i \in 1..(n + 1) : (i > n \/ ~IsSpace(b[i])) /\ \A j \in 1..(i - 1) : IsSpace(b[j])
        q == CHOOSE i \in (p - 1)..n : (i < p \/ ~IsSpace(b[i])) /\ \A j \in (i + 1)..n : IsSpace(b[j])
    IN  SubSeq(b, p, q)
Literals == {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>}
CNotation(t) ==             \* infinity, not a number, hexadecimal: left to the C library
    LET u == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
    IN  /\ Len(u) >= 2
        /\ \/ Lower(u[1]) \in {105, 110}
           \/ u[1] = 48 /\ Lower(u[2]) = 120

NumOfText(b, hints) ==
    LET t == Trim(b)
        plus == Len(t) > 1 /\ t[1] = 43 /\ t[2] # 45
        n == ParseNum(t, IF plus THEN 2 ELSE 1, Len(t), FALSE)
        fits == IF n.neg THEN BCmp(n.D, Two63) < 0 ELSE BCmp(n.D, Two64) < 0
        h == CHOOSE i \in 1..Len(hints) : hints[i].t = b
    IN  IF t = <<>> THEN [k |-> "no"]
        ELSE IF t = <<116, 114, 117, 101>> THEN [k |-> "b", b |-> 1]
        ELSE IF t = <<102, 97, 108, 115, 101>> THEN [k |-> "b", b |-> 0]
        ELSE IF t = <<110, 117, 108, 108>> THEN [k |-> "n"]
        ELSE IF Len(t) <= 5 /\ LowerCase(t) \in Literals THEN [k |-> "any"]
        ELSE IF CNotation(t) THEN [k |-> "any"]
        ELSE IF ~n.ok THEN [k |-> "no"]
        ELSE IF n.plain /\ fits THEN [k |-> "i", g |-> IF n.neg THEN 1 ELSE 0, D |-> n.D]
        \* the double nearest to the text comes with the script; it is checked here
        ELSE IF hints # <<>> /\ \E i \in 1..Len(hints) : hints[i].t = b
             THEN IF RoundsTo(n.D, n.x, hints[h].f) THEN [k |-> "f", m |-> hints[h].f]
                  ELSE [k |-> "badhint"]
        ELSE [k |-> "nohint"]
NumOf(s, hints) ==
    CASE s.k = "i" -> [k |-> "i", g |-> s.g, D |-> BOfBytes(s.m)]
      [] s.k = "f" -> [k |-> "f", m |-> s.m]
      [] s.k = "b" -> [k |-> "b", b |-> s.m[1]]
      [] s.k = "n" -> [k |-> "n"]
      [] s.k = "x" -> [k |-> "no"]
      [] s.k = "s" -> NumOfText(s.m, hints)

NumMust(t, n) ==
    CASE n.k = "no" -> TRUE
      [] n.k \in {"any", "b", "n"} -> FALSE
      [] n.k \in {"nohint", "badhint"} -> Assert(FALSE, <<"the double nearest to a text is missing or wrong", n.k>>)
      [] n.k = "i" -> (IF t \in Ints THEN ~InInt(t, n.g = 1, n.D)
                       ELSE t = "bool" /\ (BCmp(n.D, <<1>>) > 0 \/ (n.g = 1 /\ n.D # <<>>)))
      [] n.k = "f" -> (IF t \in Ints THEN DTooBig(n.m) \/ ~InInt(t, DSign(n.m) = 1, DTrunc(n.m))
                       ELSE IF t = "bool" THEN ~DZero(n.m) /\ (~DFinite(n.m) \/ DSign(n.m) = 1 \/ DExp(n.m) > 1023
                                                                 \/ (DExp(n.m) = 1023 /\ ~DMantZero(n.m)))
                       ELSE t = "f32" /\ DFinite(n.m) /\ Float32Beyond(n.m))
NumMay(t, n) ==
    \/ NumMust(t, n)
    \/ n.k = "any"
    \/ n.k = "f" /\ \/ t \in Ints /\ JustBeyond(t, n.m)
                    \/ t = "f32" /\ (DNaN(n.m) \/ Float32Above(n.m))

NumRes(t, n, r) ==
    CASE n.k = "any" -> TRUE
      [] n.k = "n" -> r = (IF t \in Ints THEN IntV(FALSE, <<>>) ELSE IF t = "bool" THEN Bool(FALSE) ELSE Fp(FZero))
      [] n.k = "b" -> r = (IF t \in Ints THEN IntV(FALSE, IF n.b = 1 THEN <<1>> ELSE <<>>)
                           ELSE IF t = "bool" THEN Bool(n.b = 1) ELSE Fp(IF n.b = 1 THEN FOne ELSE FZero))
      [] n.k = "i" ->
           (IF t \in Ints THEN r.k = "i" /\ BOfBytes(r.m) = n.D /\ r.g = (IF n.D = <<>> THEN 0 ELSE n.g)
            ELSE IF t = "bool" THEN r = Bool(n.D # <<>>)
            ELSE /\ r.k = "f" /\ DFinite(r.m)
                 /\ n.D = <<>> \/ DSign(r.m) = n.g
                 /\ IF t = "f32" THEN RoundsTo32(n.D, 0, r.m) ELSE RoundsTo(n.D, 0, r.m))
      [] n.k = "f" ->
           (IF t \in Ints THEN LET D == DTrunc(n.m) IN
                r.k = "i" /\ BOfBytes(r.m) = D /\ r.g = (IF D = <<>> THEN 0 ELSE DSign(n.m))
            ELSE IF t = "bool" THEN r = Bool(~DZero(n.m))
            ELSE IF t = "f32" /\ DFinite(n.m) THEN
                 /\ r.k = "f" /\ DSign(r.m) = DSign(n.m)
                 /\ DFinite(r.m) /\ RoundsTo32(DM(n.m), DE(n.m), r.m)
            ELSE r.k = "f" /\ (r.m = n.m \/ (DNaN(r.m) /\ DNaN(n.m))))
      [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Text *)
Utf8Valid(b) ==
    LET \* <<continuation bytes to come, limits of the next one>>
        step(a, c) ==
          IF a[1] = -1 THEN a
          ELSE IF a[1] > 0 THEN (IF c >= a[2] /\ c <= a[3] THEN <<a[1] - 1, 128, 191>> ELSE <<-1, 0, 0>>)
          ELSE IF c < 128 THEN <<0, 0, 0>>
          ELSE IF c \in 194..223 THEN <<1, 128, 191>>
          ELSE IF c = 224 THEN <<2, 160, 191>>
          ELSE IF c = 237 THEN <<2, 128, 159>>
          ELSE IF c \in 225..239 THEN <<2, 128, 191>>
          ELSE IF c = 240 THEN <<3, 144, 191>>
          ELSE IF c \in 241..243 THEN <<3, 128, 191>>
          ELSE IF c = 244 THEN <<3, 128, 143>>
          ELSE <<-1, 0, 0>>
    IN  FoldLeft(step, <<0, 0, 0>>, b)[1] = 0
(* units of valid UTF-8 text in an encoding *)
UnitsIn(enc, b) ==
    IF enc = 8 THEN Len(b)
    ELSE FoldLeft(LAMBDA a, c : a + (IF c < 128 THEN 1 ELSE IF c < 192 THEN 0 ELSE IF c >= 240 /\ enc = 16 THEN 2 ELSE 1), 0, b)
UptoNul(b) == IF \E i \in 1..Len(b) : b[i] = 0
              THEN SubSeq(b, 1, (CHOOSE i \in 1..Len(b) : b[i] = 0 /\ \A j \in 1..(i - 1) : b[j] # 0) - 1)
              ELSE b

TrueText  == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>

LeafMust(t, s, hints) ==
    CASE t \in Nums -> NumMust(t, NumOf(s, hints))
      [] t \in Strs -> s.k = "x" \/ (s.k = "s" /\ Enc(t) # 8 /\ ~Utf8Valid(s.m))
      [] t \in Chars -> s.k # "s" \/ (Enc(t) # 8 /\ ~Utf8Valid(s.m)) \/ UnitsIn(Enc(t), s.m) # 1
      [] t \in Arrs -> (IF s.k = "x" THEN s.m # <<>>
                        ELSE s.k # "s" \/ (Enc(t) # 8 /\ ~Utf8Valid(s.m)) \/ UnitsIn(Enc(t), s.m) > 7)
      [] t \in Bins -> (IF s.k = "x" THEN Len(s.m) % Width(t) # 0
                        ELSE s.k # "s" \/ ~IsBase64(s.m) \/ Len(UnBase64(s.m)) % Width(t) # 0)
LeafMay(t, s, hints) ==
    \/ LeafMust(t, s, hints)
    \/ t \in Nums /\ NumMay(t, NumOf(s, hints))
    \/ t \in Arrs /\ s.k = "x"
LeafRes(t, s, init, r, hints) ==
    CASE t \in Nums -> NumRes(t, NumOf(s, hints), r)
      [] t \in Strs -> (CASE s.k = "s" -> r = s
                          [] s.k = "n" -> r = init
                          [] s.k = "b" -> r = Str(IF s.m[1] = 1 THEN TrueText ELSE FalseText)
                          [] s.k = "f" /\ ~DFinite(s.m) -> r.k = "s"
                          [] s.k \in {"i", "f"} -> r.k = "s" /\ LET n == ParseNum(r.m, 1, Len(r.m), FALSE) IN n.ok /\ NumTextDenotes(n, s)
                          [] OTHER -> FALSE)
      [] t \in Chars -> r = s
      [] t \in Arrs -> r = Str(UptoNul(s.m))
      [] t \in Bins -> r = Bin(IF s.k = "x" THEN s.m ELSE UnBase64(s.m))

-----------------------------------------------------------------------------
(* What is in a variable of the type before anything is restored to it *)
RECURSIVE Default(_)
Default(ty) ==
    CASE ty.y \in Ints -> IntV(FALSE, <<>>)
      [] ty.y = "bool" -> Bool(FALSE)
      [] ty.y \in Fps -> Fp(FZero)
      [] ty.y \in Strs \cup Arrs -> Str(<<>>)
      [] ty.y \in Chars -> Str(<<0>>)
      [] ty.y \in Bins -> Bin(<<>>)
      [] ty.y \in Users -> [k |-> "D", e |-> <<>>]
      [] ty.y \in Seqs \cup {"set", "mset"} -> L(<<>>)
      [] ty.y = "arr" -> L([i \in 1..3 |-> Default(ty.e)])
      [] ty.y = "arr1" -> L(<<Default(ty.e)>>)
      [] ty.y \in {"map", "umap", "mmap", "ht"} -> M(<<>>)
      [] ty.y = "pair" -> L(<<Default(ty.e), Default(ty.o)>>)
      [] ty.y = "tup" -> L(<<Default(ty.o), Default(ty.e), Default(ty.p)>>)
      [] ty.y \in Ptrs -> [k |-> "P", e |-> <<>>]

(* The fields of a type with a fixed number of components *)
Field(n, ty) == [n |-> n, opt |-> FALSE, ty |-> ty]
FieldsOf(ty) == CASE ty.y \in Users -> ty.f
                  [] ty.y = "pair" -> <<Field(FirstName, ty.e), Field(SecondName, ty.o)>>
                  [] ty.y = "tup"  -> <<Field(<<>>, ty.o), Field(<<>>, ty.e), Field(<<>>, ty.p)>>
ByPosition(ty) == IF ty.y \in Users THEN ty.pos ELSE ty.y = "tup"
(* where field i of the type is found in scope d *)
Find(ty, d, i) ==
    LET f == FieldsOf(ty)
        kind == Kind(f[i].ty)
        before == Cardinality({j \in 1..(i - 1) : Kind(f[j].ty) = kind})
    IN  IF ByPosition(ty) THEN Nth(d, kind, before + 1) ELSE Named(d, kind, f[i].n)
Init_(f) == IF "i" \in DOMAIN f THEN f.i ELSE Default(f.ty)

(* the entry of a map: key and value in a scope *)
EntryKey(ty, d) == Named(d, Kind(ty.key), KeyName)
EntryValue(ty, d) == Named(d, Kind(ty.e), ValueName)
IsMap(ty) == ty.y \in {"map", "umap", "mmap"}
Fixed(ty) == ty.y \in Users \cup {"pair", "tup"}
Needs(ty) == IF ty.y \in {"pair", "ht"} THEN {"o"} ELSE {"o", "a"}
Exactly(ty) == CASE ty.y = "arr" -> 3 [] ty.y = "arr1" -> 1 [] OTHER -> -1

(* Restoring the item as the type has to fail / may fail (must: which of them) *)
RECURSIVE Fails(_, _, _, _)
Fails(ty, it, must, hints) ==
    IF ty.y \in Leafs THEN it.k # "v" \/ (IF must THEN LeafMust(ty.y, it.s, hints) ELSE LeafMay(ty.y, it.s, hints))
    ELSE IF ty.y = "upt" THEN Fails(ty.e, it, must, hints)
    ELSE IF ty.y = "ptr" THEN ~(it.k = "v" /\ it.s.k = "n") /\ Fails(ty.e, it, must, hints)
    ELSE IF it.k # "c" THEN TRUE
    ELSE IF it.d.t \notin Needs(ty) THEN TRUE
    ELSE IF Fixed(ty) THEN
        LET f == FieldsOf(ty) IN
        \E i \in 1..Len(f) :
            LET x == Find(ty, it.d, i) IN
            IF x = <<>> THEN ~f[i].opt ELSE Fails(f[i].ty, x[1], must, hints)
    ELSE IF IsMap(ty) THEN
        \E i \in 1..Len(it.d.c) :
            LET d == it.d.c[i].d
                x == EntryKey(ty, d)
                y == EntryValue(ty, d)
            IN  x = <<>> \/ y = <<>> \/ Fails(ty.key, x[1], must, hints) \/ Fails(ty.e, y[1], must, hints)
    ELSE LET xs == ItemsOf(it.d, Kind(ty.e)) IN
        \/ Exactly(ty) >= 0 /\ Len(xs) # Exactly(ty)
        \/ \E i \in 1..Len(xs) : Fails(ty.e, xs[i], must, hints)

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

Zeros == {[k |-> "f", g |-> 0, m |-> <<b, 0, 0, 0, 0, 0, 0, 0>>] : b \in {0, 128}}
IsZero(x) == x \in Zeros
NaNValue == [k |-> "f", g |-> 0, m |-> <<127, 248, 0, 0, 0, 0, 0, 0>>]

(* The value r is what restoring the item yields, if the variable held init before *)
RECURSIVE Gives(_, _, _, _, _)
Gives(ty, it, init, r, hints) ==
    IF ty.y \in Leafs THEN LeafRes(ty.y, it.s, init, r, hints)
    ELSE IF ty.y = "ptr" /\ it.k = "v" /\ it.s.k = "n" THEN r = [k |-> "P", e |-> <<>>]
    ELSE IF ty.y \in {"upt", "ptr"} THEN r.k = "P" /\ Len(r.e) = 1 /\ Gives(ty.e, it, Default(ty.e), r.e[1], hints)
    ELSE IF Fixed(ty) THEN
        LET f == FieldsOf(ty) IN
        /\ r.k = "L" /\ Len(r.e) = Len(f)
        /\ \A i \in 1..Len(f) :
             LET x == Find(ty, it.d, i) IN
             IF x = <<>> THEN r.e[i] = Init_(f[i]) ELSE Gives(f[i].ty, x[1], Init_(f[i]), r.e[i], hints)
    ELSE IF IsMap(ty) \/ ty.y = "ht" THEN
        LET kind == Kind(ty.e)
            n == IF ty.y = "ht" THEN Len(ItemsOf(it.d, kind)) ELSE Len(it.d.c)
            key(j, x) == IF ty.y = "ht" THEN x = Str(NamesOf(it.d, kind)[j])
                         ELSE Gives(ty.key, EntryKey(ty, it.d.c[j].d)[1], Default(ty.key), x, hints)
            val(j, x) == IF ty.y = "ht" THEN Gives(ty.e, ItemsOf(it.d, kind)[j], Default(ty.e), x, hints)
                         ELSE Gives(ty.e, EntryValue(ty, it.d.c[j].d)[1], Default(ty.e), x, hints)
        IN  /\ r.k = "M"
            /\ \A j \in 1..n : \E q \in 1..Len(r.e) : key(j, r.e[q][1])
            /\ IF ty.y = "mmap" THEN
                 /\ Len(r.e) = n
                 /\ \A q \in 1..n : Cardinality({j \in 1..n : key(j, r.e[q][1]) /\ val(j, r.e[q][2])}) >= Count(r.e, r.e[q])
               ELSE
                 \* the first entry of a key counts
                 /\ Distinct([q \in 1..Len(r.e) |-> r.e[q][1]])
                 /\ \A q \in 1..Len(r.e) :
                      LET js == {j \in 1..n : key(j, r.e[q][1])}
                      IN  js # {} /\ val(CHOOSE j \in js : \A i \in js : j <= i, r.e[q][2])
    ELSE
        LET xs == ItemsOf(it.d, Kind(ty.e)) IN
        /\ r.k = "L"
        /\ IF ty.y = "set" /\ ty.e.y \in Fps /\ \E i \in 1..Len(xs) : Gives(ty.e, xs[i], Default(ty.e), NaNValue, hints)
           THEN TRUE           \* NaN has no place in the order of a set
           ELSE IF ty.y = "set" THEN
             /\ Distinct(r.e)
             /\ Cardinality({q \in 1..Len(r.e) : IsZero(r.e[q])}) <= 1     \* 0 and -0 are the same
             /\ \A i \in 1..Len(xs) : \E q \in 1..Len(r.e) :
                  \E x \in (IF IsZero(r.e[q]) THEN Zeros ELSE {r.e[q]}) : Gives(ty.e, xs[i], Default(ty.e), x, hints)
             /\ \A q \in 1..Len(r.e) : \E i \in 1..Len(xs) : Gives(ty.e, xs[i], Default(ty.e), r.e[q], hints)
           ELSE IF ty.y = "mset" THEN
             /\ Len(r.e) = Len(xs)
             /\ \A q \in 1..Len(r.e) : Cardinality({i \in 1..Len(xs) : Gives(ty.e, xs[i], Default(ty.e), r.e[q], hints)}) = Count(r.e, r.e[q])
           ELSE
             /\ Len(r.e) = Len(xs)
             /\ \A i \in 1..Len(xs) : Gives(ty.e, xs[i], Default(ty.e), r.e[i], hints)

-----------------------------------------------------------------------------
(* Storing: does the item denote the value?  (The order is not determined   *)
(* for hash based containers.)                                              *)
SameBag(n, m, Rel(_, _)) ==
    /\ n = m
    /\ \A i \in 1..n : \E j \in 1..m : Rel(i, j)
    /\ \A j \in 1..m : \E i \in 1..n : Rel(i, j)

RECURSIVE StoredAs(_, _, _)
StoredAs(ty, val, it) ==
    IF ty.y \in Leafs THEN it.k = "v" /\ it.s = val
    ELSE IF ty.y \in {"upt", "ptr"} THEN (IF val.e = <<>> THEN it = Value(Null) ELSE StoredAs(ty.e, val.e[1], it))
    ELSE IF it.k # "c" THEN FALSE
    ELSE IF ty.y = "spt" THEN
        /\ it.d.t = "o"
        /\ Named(it.d, "v", SharedKey) # <<>>
        /\ LET x == Named(it.d, Kind(ty.e), SharedValue) IN x # <<>> /\ StoredAs(ty.e, val.e[1], x[1])
    ELSE IF Fixed(ty) THEN
        LET f == FieldsOf(ty)
            nv == Cardinality({i \in 1..Len(f) : Kind(f[i].ty) = "v"})
        IN  /\ it.d.t = (IF ty.y = "tup" THEN "a" ELSE "o")
            /\ Len(it.d.v) = nv /\ Len(it.d.c) = Len(f) - nv
            /\ \A i \in 1..Len(f) :
                 LET kind == Kind(f[i].ty)
                     k == 1 + Cardinality({j \in 1..(i - 1) : Kind(f[j].ty) = kind})
                     name == IF ByPosition(ty) THEN <<>> ELSE f[i].n
                 IN  NamesOf(it.d, kind)[k] = name /\ StoredAs(f[i].ty, val.e[i], Nth(it.d, kind, k)[1])
    ELSE IF IsMap(ty) THEN
        /\ it.d.t = "a" /\ it.d.v = <<>>
        /\ SameBag(Len(val.e), Len(it.d.c), LAMBDA i, j :
             LET d == it.d.c[j].d IN
             /\ it.d.c[j].n = <<>>
             /\ d.t = "o" /\ Len(d.v) + Len(d.c) = 2
             /\ EntryKey(ty, d) # <<>> /\ EntryValue(ty, d) # <<>>
             /\ StoredAs(ty.key, val.e[i][1], EntryKey(ty, d)[1]) /\ StoredAs(ty.e, val.e[i][2], EntryValue(ty, d)[1]))
    ELSE IF ty.y = "ht" THEN
        LET kind == Kind(ty.e)
            xs == ItemsOf(it.d, kind)
        IN  /\ it.d.t = "o" /\ Len(it.d.v) + Len(it.d.c) = Len(xs)
            /\ SameBag(Len(val.e), Len(xs), LAMBDA i, j :
                 NamesOf(it.d, kind)[j] = val.e[i][1].m /\ StoredAs(ty.e, val.e[i][2], xs[j]))
    ELSE
        LET kind == Kind(ty.e)
            xs == ItemsOf(it.d, kind)
            nm == NamesOf(it.d, kind)
        IN  /\ it.d.t = "a" /\ Len(it.d.v) + Len(it.d.c) = Len(xs)
            /\ \A i \in 1..Len(xs) : nm[i] = <<>>
            /\ IF ty.y \in {"set", "mset"}
               THEN SameBag(Len(val.e), Len(xs), LAMBDA i, j : StoredAs(ty.e, val.e[i], xs[j]))
               ELSE Len(val.e) = Len(xs) /\ \A i \in 1..Len(xs) : StoredAs(ty.e, val.e[i], xs[i])

(* Equal objects *)
RECURSIVE SameVal(_, _, _)
SameVal(ty, a, b) ==
    IF ty.y \in Leafs THEN a = b \/ (a.k = "f" /\ b.k = "f" /\ DZero(a.m) /\ DZero(b.m))
    ELSE /\ a.k = b.k /\ Len(a.e) = Len(b.e)
         /\ IF Fixed(ty) THEN \A i \in 1..Len(a.e) : SameVal(FieldsOf(ty)[i].ty, a.e[i], b.e[i])
            ELSE IF IsMap(ty) THEN SameBag(Len(a.e), Len(b.e), LAMBDA i, j :
                    SameVal(ty.key, a.e[i][1], b.e[j][1]) /\ SameVal(ty.e, a.e[i][2], b.e[j][2]))
            ELSE IF ty.y = "ht" THEN SameBag(Len(a.e), Len(b.e), LAMBDA i, j :
                    a.e[i][1] = b.e[j][1] /\ SameVal(ty.e, a.e[i][2], b.e[j][2]))
            ELSE IF ty.y \in {"set", "mset"} THEN SameBag(Len(a.e), Len(b.e), LAMBDA i, j : SameVal(ty.e, a.e[i], b.e[j]))
            ELSE \A i \in 1..Len(a.e) : SameVal(ty.e, a.e[i], b.e[i])
=============================================================================
