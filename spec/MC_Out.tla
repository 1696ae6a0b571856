------------------------------- MODULE MC_Out -------------------------------
(***************************************************************************)
(* Design model of writing to a stream through a segment of memory: bytes  *)
(* that don't fit the segment any more are preceded by a flush; lengths    *)
(* that are known only later are reserved and filled in, in the segment or *)
(* in the stream.  Writing begins where the stream stands.                 *)
(*                                                                         *)
(* Writing to memory is the specification: abs, the bytes written so far.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS K,          \* size of a segment
          Sizes,      \* of the pieces written
          Reserve,    \* bytes reserved for a length
          Old,        \* size of what is in the stream before
          MaxOps, MaxOpen
VARIABLES mem, cap, ids, strm, spos, start, total, open, abs, hist
vars == <<mem, cap, ids, strm, spos, start, total, open, abs, hist>>

Max(a, b) == IF a > b THEN a ELSE b

(* what is in the stream after b was written at position p *)
Over(c, p, b) == [i \in 1..Max(Len(c), p + Len(b)) |->
    IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE IF i <= Len(c) THEN c[i] ELSE 0]

Before == [i \in 1..Old |-> 1000 + i]

Init == /\ mem = <<>> /\ cap = 0 /\ ids = 0 /\ strm = Before /\ start \in 0..Old /\ spos = start
        /\ total = 0 /\ open = <<>> /\ abs = <<>> /\ hist = <<>>

(* b follows *)
Put(b) ==
    LET fl   == cap - Len(mem) < Len(b) /\ cap > 0
        m1   == IF fl THEN <<>> ELSE mem
    IN  /\ strm' = IF fl THEN Over(strm, spos, mem) ELSE strm
        /\ spos' = IF fl THEN spos + Len(mem) ELSE spos
        /\ ids'  = IF fl THEN ids + 1 ELSE ids
        /\ mem'  = m1 \o b
        /\ cap'  = IF cap < Len(b) THEN Max(K, Len(b)) ELSE cap
        /\ total' = total + Len(b)
        /\ abs' = abs \o b

Write(n) == /\ Put([i \in 1..n |-> total + i])
            /\ UNCHANGED <<start, open>>
            /\ hist' = Append(hist, n)

Open == /\ Len(open) < MaxOpen
        /\ Put([i \in 1..Reserve |-> 0])
        /\ open' = Append(open, [seg |-> ids', at |-> Len(mem') - Reserve, pos |-> total])
        /\ hist' = Append(hist, 0)
        /\ UNCHANGED start

Close ==
    /\ open # <<>>
    /\ LET t == open[Len(open)]
           b == [i \in 1..Reserve |-> 100 + t.pos + i]
       IN  /\ IF t.seg = ids
              THEN mem' = Over(mem, t.at, b) /\ UNCHANGED strm
              ELSE strm' = Over(strm, start + t.pos, b) /\ UNCHANGED mem
           /\ abs' = Over(abs, t.pos, b)
           /\ open' = SubSeq(open, 1, Len(open) - 1)
    /\ hist' = Append(hist, -1)
    /\ UNCHANGED <<cap, ids, spos, start, total>>

Next == /\ Len(hist) < MaxOps
        /\ (\E n \in Sizes : Write(n)) \/ Open \/ Close
Spec == Init /\ [][Next]_vars

(* the stream, with what is still in the segment, is what it should be *)
Right    == Over(strm, spos, mem) = Over(Before, start, abs)
Position == spos + Len(mem) = start + total
Fits     == Len(mem) <= cap
Emit == IF Len(hist) = MaxOps /\ open = <<>> /\ start = 0
        THEN PrintT("SCRIPT " \o ToJson([ops |-> hist])) ELSE TRUE
=============================================================================
