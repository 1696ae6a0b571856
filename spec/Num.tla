-------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* The numbers of the data model, and the number syntax of text formats.   *)
(*                                                                         *)
(*   integer         [k |-> "i", g |-> 0/1, m |-> magnitude, little endian  *)
(*                    bytes without leading zeros]                         *)
(*   floating point  [k |-> "f", g |-> 0, m |-> the 8 bytes of the IEEE    *)
(*                    double, most significant byte first]                 *)
(***************************************************************************)
EXTENDS BigNat, FiniteSetsExt

IsI(s) == s.k = "i"
IsF(s) == s.k = "f"

------------------------------- (* doubles *) -------------------------------
DSign(f) == f[1] \div 128
DExp(f)  == (f[1] % 128) * 16 + f[2] \div 16
DMantZero(f) == f[2] % 16 = 0 /\ \A i \in 3..8 : f[i] = 0
DFinite(f) == DExp(f) # 2047
DNaN(f)    == DExp(f) = 2047 /\ ~DMantZero(f)
DInf(f)    == DExp(f) = 2047 /\ DMantZero(f)
DZero(f)   == DExp(f) = 0 /\ DMantZero(f)

Bit(b, i) == (b \div 2 ^ i) % 2          \* i-th bit of a byte

ByteBits(b) == [i \in 1..8 |-> Bit(b, i - 1)]

(* 53 bits of the significand, least significant first *)
DBits(f) ==
    LET low == [i \in 1..48 |-> Bit(f[8 - ((i - 1) \div 8)], (i - 1) % 8)]
        hi  == [i \in 1..4 |-> Bit(f[2], i - 1)]
    IN  low \o hi \o <<IF DExp(f) = 0 THEN 0 ELSE 1>>

(* value = mantissa * 2^DE(f) *)
DM(f) == BOfBytes(<<f[8], f[7], f[6], f[5], f[4], f[3],
                    (f[2] % 16) + (IF DExp(f) = 0 THEN 0 ELSE 16)>>)
DE(f) == (IF DExp(f) = 0 THEN 1 ELSE DExp(f)) - 1075

(* smallest double of its binade: the gap below is half of the gap above *)
DBinadeStart(f) == DMantZero(f) /\ DExp(f) > 1

(* compare  D * 10^d  with  M * 2^e *)
CmpDecBin(D, d, M, e) ==
    LET l == BMulPow2(BMulPow10(D, IF d > 0 THEN d ELSE 0), IF e < 0 THEN -e ELSE 0)
        r == BMulPow10(BMulPow2(M, IF e > 0 THEN e ELSE 0), IF d < 0 THEN -d ELSE 0)
    IN  BCmp(l, r)

(* Is the double with the magnitude of f the one nearest to D * 10^d, ties to even? *)
RoundsTo(D, d, f) ==
    LET even == f[8] % 2 = 0
        M == DM(f)
        e == DE(f)
    IN  IF D = <<>> THEN DZero(f)
        ELSE IF DNaN(f) THEN FALSE
        ELSE IF DInf(f) THEN
            \* at least halfway between the largest double and 2^1024
            CmpDecBin(D, d, BOfBytes(<<255, 255, 255, 255, 255, 255, 63>>), 970) >= 0
        ELSE
            LET hi == CmpDecBin(D, d, BMulAdd(M, 2, 1), e - 1)
                lowM == IF DBinadeStart(f)
                        THEN BMulAdd(M, 4, 0) ELSE BMulAdd(M, 2, 0)
                \* lowM - 1: the number is even, so only the last limb changes
                lowM1 == IF lowM = <<>> THEN <<>> ELSE BPred(lowM)
                lo == CmpDecBin(D, d, lowM1, IF DBinadeStart(f) THEN e - 2 ELSE e - 1)
            IN  /\ IF even THEN hi <= 0 ELSE hi < 0
                /\ M = <<>> \/ (IF even THEN lo >= 0 ELSE lo > 0)

(* A finite double with an integral value below 2^64: its magnitude as a BigNat *)
DIntegral(f) ==
    /\ DFinite(f)
    /\ DE(f) <= 11
    /\ \/ DZero(f)
       \/ /\ DE(f) > -53
          /\ \A i \in 1..53 : i <= -DE(f) => DBits(f)[i] = 0
DIntMag(f) ==
    IF DZero(f) THEN <<>>
    ELSE IF DE(f) >= 0 THEN BMulPow2(DM(f), DE(f))
    ELSE BOfBits(SubSeq(DBits(f), 1 - DE(f), 53))

(* Same number?  Negative zero equals zero. *)
NumEq(a, b) ==
    CASE IsI(a) /\ IsI(b) -> a = b
      [] IsF(a) /\ IsF(b) -> a.m = b.m \/ (DZero(a.m) /\ DZero(b.m))
      [] IsI(a) /\ IsF(b) -> /\ DIntegral(b.m)
                             /\ DIntMag(b.m) = BOfBytes(a.m)
                             /\ (a.m = <<>> \/ a.g = DSign(b.m))
      [] IsF(a) /\ IsI(b) -> /\ DIntegral(a.m)
                             /\ DIntMag(a.m) = BOfBytes(b.m)
                             /\ (b.m = <<>> \/ b.g = DSign(a.m))

------------------------- (* decimal number syntax *) -----------------------
IsDigit(c) == c >= 48 /\ c <= 57

(* First position >= p that holds no element of the class, or e + 1 *)
SkipWhile(b, p, e, InClass(_)) ==
    CHOOSE q \in p..(e + 1) : /\ (q > e \/ ~InClass(b[q]))
                              /\ \A i \in p..(q - 1) : InClass(b[i])

SmallOfDigits(b, p, q) == FoldLeft(LAMBDA acc, c : IF acc > 100000 THEN acc ELSE acc * 10 + (c - 48),
                                   0, SubSeq(b, p, q))

(***************************************************************************)
(* Parse  -? digits [. digits] [(e|E) [+-] digits]  in b[p..e].            *)
(* strict: the grammar of JSON (no leading zeros, digits on both sides of  *)
(* the point).  Result: ok, neg, plain (integer syntax), D, x : D * 10^x   *)
(***************************************************************************)
BadNum == [ok |-> FALSE, neg |-> FALSE, plain |-> FALSE, D |-> <<>>, x |-> 0]
ParseNum(b, p0, e, strict) ==
    LET neg == p0 <= e /\ b[p0] = 45
        p   == IF neg THEN p0 + 1 ELSE p0
        q   == SkipWhile(b, p, e, IsDigit)                 \* after integer digits
        dot == q <= e /\ b[q] = 46
        r   == IF dot THEN SkipWhile(b, q + 1, e, IsDigit) ELSE q   \* after fraction
        ex  == r <= e /\ b[r] \in {69, 101}
        sg  == IF ex /\ r + 1 <= e /\ b[r + 1] \in {43, 45} THEN 1 ELSE 0
        xs  == r + 1 + sg
        t   == IF ex THEN SkipWhile(b, xs, e, IsDigit) ELSE r
        ni  == q - p
        nf  == IF dot THEN r - q - 1 ELSE 0
        xv  == IF ex THEN SmallOfDigits(b, xs, t - 1) ELSE 0
        xx  == IF ex /\ sg = 1 /\ b[r + 1] = 45 THEN -xv ELSE xv
        dig(i) == b[i] - 48
        ds  == [i \in 1..ni |-> dig(p + i - 1)] \o [i \in 1..nf |-> dig(q + i)]
        ok  == /\ t = e + 1
               /\ ni + nf > 0
               /\ (ex => t > xs)
               /\ (strict => /\ ni > 0
                             /\ (dot => nf > 0)
                             /\ (ni > 1 => b[p] # 48))
    IN  IF ok THEN [ok |-> TRUE, neg |-> neg, plain |-> ~dot /\ ~ex, D |-> BOfDigits(ds), x |-> xx - nf]
        ELSE BadNum

Two63 == BPow2(63)
Two64 == BPow2(64)

(* The number n written as text has to be read as the scalar s. *)
NumTextReadAs(n, s) ==
    LET fits == IF n.neg THEN BCmp(n.D, Two63) < 0 ELSE BCmp(n.D, Two64) < 0
    IN  \/ /\ n.plain /\ fits
           /\ IsI(s)
           /\ BOfBytes(s.m) = n.D
           /\ s.g = (IF n.neg /\ n.D # <<>> THEN 1 ELSE 0)
        \/ /\ ~(n.plain /\ fits)
           /\ IsF(s)
           /\ (DZero(s.m) \/ DSign(s.m) = (IF n.neg THEN 1 ELSE 0))
           /\ RoundsTo(n.D, n.x, s.m)

(* The number n written as text denotes the scalar s: integers exactly,    *)
(* floating point numbers by the nearest double.                           *)
NumTextDenotes(n, s) ==
    \/ /\ IsI(s)
       /\ CmpDecBin(n.D, n.x, BOfBytes(s.m), 0) = 0
       /\ (s.m = <<>> \/ s.g = (IF n.neg THEN 1 ELSE 0))
    \/ /\ IsF(s)
       /\ DFinite(s.m)
       /\ (DZero(s.m) \/ DSign(s.m) = (IF n.neg THEN 1 ELSE 0))
       /\ RoundsTo(n.D, n.x, s.m)
=============================================================================
