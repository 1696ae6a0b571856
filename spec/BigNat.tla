------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of arbitrary size.  TLC's integers have 32 bits, so the *)
(* 64 bit integers and the floating point numbers the library deals with   *)
(* are modelled by sequences of limbs in base 10^4, least significant limb *)
(* first, without leading zero limbs (zero is the empty sequence).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Base == 10000

RECURSIVE BStrip(_)
BStrip(x) == IF x = <<>> \/ x[Len(x)] # 0 THEN x ELSE BStrip(SubSeq(x, 1, Len(x) - 1))

(* x * m + a   for 0 <= m, a <= 10^5 *)
BMulAdd(x, m, a) ==
    LET step(acc, limb) == LET t == limb * m + acc[1]
                           IN  <<t \div Base, Append(acc[2], t % Base)>>
        r == FoldLeft(step, <<a, <<>>>>, x)
        c == r[1]
        top == IF c = 0 THEN <<>>
               ELSE IF c < Base THEN <<c>>
               ELSE <<c % Base, c \div Base>>
    IN  BStrip(r[2] \o top)

BOfSmall(n) == BMulAdd(<<>>, 0, n)      \* n <= 10^8

(* little endian bytes *)
BOfBytes(bs) == FoldLeft(LAMBDA acc, b : BMulAdd(acc, 256, b), <<>>, Reverse(bs))

(* little endian bits *)
BOfBits(bs) == FoldLeft(LAMBDA acc, b : BMulAdd(acc, 2, b), <<>>, Reverse(bs))

(* decimal digits, most significant first *)
BOfDigits(ds) ==
    LET n == Len(ds)
        d(i) == IF i >= 1 THEN ds[i] ELSE 0
        limbs == (n + 3) \div 4
    IN  BStrip([k \in 1..limbs |->
            LET e == n - 4 * (k - 1)
            IN  d(e) + 10 * d(e - 1) + 100 * d(e - 2) + 1000 * d(e - 3)])

(* -1, 0, 1 *)
BCmp(x, y) ==
    IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1)
    ELSE IF x = y THEN 0
    ELSE LET i == CHOOSE i \in 1..Len(x) : x[i] # y[i] /\ \A j \in i + 1..Len(x) : x[j] = y[j]
         IN  IF x[i] < y[i] THEN -1 ELSE 1

BAdd(x, y) ==
    LET n == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
        at(z, i) == IF i <= Len(z) THEN z[i] ELSE 0
        step(acc, i) == LET t == at(x, i) + at(y, i) + acc[1]
                        IN  <<t \div Base, Append(acc[2], t % Base)>>
        r == FoldLeft(step, <<0, <<>>>>, [i \in 1..n |-> i])
    IN  IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])

(* predecessor of a number > 0 *)
BPred(x) ==
    LET i == CHOOSE i \in 1..Len(x) : x[i] # 0 /\ \A j \in 1..i - 1 : x[j] = 0
    IN  BStrip([j \in 1..Len(x) |-> IF j < i THEN Base - 1 ELSE IF j = i THEN x[j] - 1 ELSE x[j]])

RECURSIVE BMulPow2(_, _)
BMulPow2(x, k) == IF k = 0 \/ x = <<>> THEN x
                  ELSE IF k >= 16 THEN BMulPow2(BMulAdd(x, 65536, 0), k - 16)
                  ELSE BMulAdd(x, 2 ^ k, 0)

BMulPow10(x, k) == IF x = <<>> THEN x
                   ELSE BMulAdd([i \in 1..(k \div 4) |-> 0] \o x, 10 ^ (k % 4), 0)

BPow2(k) == BMulPow2(<<1>>, k)
=============================================================================
