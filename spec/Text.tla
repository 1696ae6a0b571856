-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text and binary encodings: Unicode transformation formats, base64, hex. *)
(* All data are sequences of bytes (0..255); code points are naturals.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

------------------------------ (* Unicode *) --------------------------------
IsSurrogate(c) == c >= 55296 /\ c <= 57343
IsCodePoint(c) == c >= 0 /\ c <= 1114111 /\ ~IsSurrogate(c)

Utf8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Unit16(u) == <<u % 256, u \div 256>>              \* little endian
Utf16(c) == IF c < 65536 THEN Unit16(c)
            ELSE Unit16(55296 + (c - 65536) \div 1024) \o Unit16(56320 + ((c - 65536) % 1024))
Utf32(c) == <<c % 256, (c \div 256) % 256, c \div 65536, 0>>

(* FlattenSeq, in parts (it takes quadratic time) *)
Flatten2(ss) ==
    LET n == Len(ss)
        part(k) == FlattenSeq(SubSeq(ss, 256 * k + 1, IF 256 * k + 256 < n THEN 256 * k + 256 ELSE n))
    IN  FlattenSeq([k \in 1..((n + 255) \div 256) |-> part(k - 1)])

Encode(enc, cps) ==
    Flatten2([i \in 1..Len(cps) |->
        CASE enc = 8 -> Utf8(cps[i]) [] enc = 16 -> Utf16(cps[i]) [] enc = 32 -> Utf32(cps[i])])

(* Next code point of UTF-8 text at position p: <<code point, next position>>, code point -1 if invalid *)
Utf8Next(b, p) ==
    LET n == Len(b)
        c == b[p]
        cont(i) == p + i <= n /\ b[p + i] \in 128..191
        bad == <<-1, p>>
    IN  IF c < 128 THEN <<c, p + 1>>
        ELSE IF c \in 194..223 THEN
             IF cont(1) THEN <<(c - 192) * 64 + b[p + 1] - 128, p + 2>> ELSE bad
        ELSE IF c \in 224..239 THEN
             IF cont(1) /\ cont(2)
             THEN LET v == (c - 224) * 4096 + (b[p + 1] - 128) * 64 + b[p + 2] - 128
                  IN  IF v >= 2048 /\ ~IsSurrogate(v) THEN <<v, p + 3>> ELSE bad
             ELSE bad
        ELSE IF c \in 240..244 THEN
             IF cont(1) /\ cont(2) /\ cont(3)
             THEN LET v == (c - 240) * 262144 + (b[p + 1] - 128) * 4096 + (b[p + 2] - 128) * 64 + b[p + 3] - 128
                  IN  IF v >= 65536 /\ v <= 1114111 THEN <<v, p + 4>> ELSE bad
             ELSE bad
        ELSE bad

Utf16Next(b, p) ==
    LET n == Len(b)
        bad == <<-1, p>>
        u(q) == b[q] + 256 * b[q + 1]
    IN  IF p + 1 > n THEN bad
        ELSE IF ~IsSurrogate(u(p)) THEN <<u(p), p + 2>>
        ELSE IF u(p) >= 56320 \/ p + 3 > n THEN bad
        ELSE IF u(p + 2) < 56320 \/ u(p + 2) > 57343 THEN bad
        ELSE <<65536 + (u(p) - 55296) * 1024 + u(p + 2) - 56320, p + 4>>

Utf32Next(b, p) ==
    IF p + 3 > Len(b) THEN <<-1, p>>
    ELSE LET v == IF b[p + 3] # 0 \/ b[p + 2] > 16 THEN -1 ELSE b[p] + 256 * b[p + 1] + 65536 * b[p + 2]
         IN  IF IsCodePoint(v) THEN <<v, p + 4>> ELSE <<-1, p>>

NextCp(enc, b, p) == CASE enc = 8 -> Utf8Next(b, p) [] enc = 16 -> Utf16Next(b, p) [] enc = 32 -> Utf32Next(b, p)

------------------------------- (* base64 *) --------------------------------
B64Char(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + (v - 26)
              ELSE IF v < 62 THEN 48 + (v - 52) ELSE IF v = 62 THEN 43 ELSE 47

Base64(b) ==
    LET n == Len(b)
        at(i) == IF i <= n THEN b[i] ELSE 0
        groups == (n + 2) \div 3
        ch(k) ==                                          \* k-th character, from 1
            LET g == (k - 1) \div 4
                j == (k - 1) % 4
                x == at(3 * g + 1)
                y == at(3 * g + 2)
                z == at(3 * g + 3)
            IN  CASE j = 0 -> B64Char(x \div 4)
                  [] j = 1 -> B64Char((x % 4) * 16 + y \div 16)
                  [] j = 2 -> IF 3 * g + 2 > n THEN 61 ELSE B64Char((y % 16) * 4 + z \div 64)
                  [] j = 3 -> IF 3 * g + 3 > n THEN 61 ELSE B64Char(z % 64)
    IN  [k \in 1..(4 * groups) |-> ch(k)]

B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71
             ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1

(* Well-formed padded base64 (the unused bits of the last group are not examined) *)
IsBase64(t) ==
    LET n == Len(t)
        pad == IF n >= 1 /\ t[n] = 61 THEN (IF n >= 2 /\ t[n - 1] = 61 THEN 2 ELSE 1) ELSE 0
    IN  /\ n % 4 = 0
        /\ \A i \in 1..(n - pad) : B64Val(t[i]) >= 0

UnBase64(t) ==
    LET n == Len(t)
        pad == IF n >= 1 /\ t[n] = 61 THEN (IF n >= 2 /\ t[n - 1] = 61 THEN 2 ELSE 1) ELSE 0
        v(i) == IF i <= n - pad THEN B64Val(t[i]) ELSE 0
        m == (n \div 4) * 3 - pad
        byte(k) == LET g == (k - 1) \div 3
                       j == (k - 1) % 3
                       a == v(4 * g + 1)
                       b == v(4 * g + 2)
                       c == v(4 * g + 3)
                       d == v(4 * g + 4)
                   IN  CASE j = 0 -> a * 4 + b \div 16
                         [] j = 1 -> (b % 16) * 16 + c \div 4
                         [] j = 2 -> (c % 4) * 64 + d
    IN  [k \in 1..m |-> byte(k)]

--------------------------------- (* hex *) ---------------------------------
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 55 + v
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55
             ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Hex(b) == [k \in 1..(2 * Len(b)) |->
             IF k % 2 = 1 THEN HexDigit(b[(k + 1) \div 2] \div 16) ELSE HexDigit(b[k \div 2] % 16)]
IsHex(t) == Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : HexVal(t[i]) >= 0
UnHex(t) == [k \in 1..(Len(t) \div 2) |-> 16 * HexVal(t[2 * k - 1]) + HexVal(t[2 * k])]
=============================================================================
