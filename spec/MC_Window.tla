----------------------------- MODULE MC_Window ------------------------------
(***************************************************************************)
(* Design model of reading from a stream through a window.  The file is    *)
(* 1..F; the buffer holds positions of the file, so that its content shows *)
(* where it came from.  A refill keeps everything from the current         *)
(* position (or the anchor) on, and a margin before it, and reads as much  *)
(* as is asked for, but at least a chunk.                                  *)
(*                                                                         *)
(* Reading from memory is the specification: position q in 0..F.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS F,        \* size of the file
          Chunk, Margin, MaxN, MaxOps
VARIABLES buf,      \* content of the buffer
          p,        \* current position in it: bytes before it
          eof,
          file,     \* how much of the file has been read
          q,        \* position, reading from memory
          hist, ok
vars == <<buf, p, eof, file, q, hist, ok>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

W == [buf |-> buf, p |-> p, eof |-> eof, file |-> file, a |-> -1]
Left(w) == Len(w.buf) - w.p

(* Refill w, so that there are at least n bytes left.  a: anchor, if >= 0 *)
Refill(w, n, chunk) ==
    IF w.eof THEN w
    ELSE LET keep == IF w.a >= 0 THEN w.a ELSE w.p
             from == keep - Min(keep, Margin)
             want == Max(n, chunk) - Left(w)
             got  == Min(want, F - w.file)
             data == SubSeq(w.buf, from + 1, Len(w.buf)) \o [i \in 1..got |-> w.file + i]
         IN  [buf |-> data, p |-> w.p - from, eof |-> Left(w) + got < n, file |-> w.file + got,
              a |-> IF w.a >= 0 THEN w.a - from ELSE -1]

(* at least n bytes have to be there, and one more to look at, unless the file ends *)
Peek(w, n) == IF n >= Left(w) THEN Refill(w, n, Chunk) ELSE w
Has(w, n)  == Left(w) >= n /\ (n < Left(w) \/ ~w.eof)

Start == Refill([buf |-> <<>>, p |-> 0, eof |-> FALSE, file |-> 0, a |-> -1], 0, 1)
Init == buf = Start.buf /\ p = Start.p /\ eof = Start.eof /\ file = Start.file /\ q = 0 /\ hist = <<>> /\ ok = TRUE

Set(w) == buf' = w.buf /\ p' = w.p /\ eof' = w.eof /\ file' = w.file
Log(op, n) == hist' = Append(hist, [op |-> op, n |-> n])

(* Bytes i..j of the buffer are the bytes of the file they should be *)
Same(w, lo, n, at) == \A i \in 1..n : w.buf[lo + i] = at + i

(* a block of n bytes, as one piece *)
Block(n) ==
    LET w == Peek([W EXCEPT !.a = p], n) IN
    IF Left(w) >= n
    THEN Set([w EXCEPT !.p = @ + n]) /\ q' = q + n /\ ok' = Same(w, w.p, n, q) /\ Log("block", n)
    ELSE Set(w) /\ q' = q /\ ok' = (q + n > F) /\ Log("fail", n)

(* the same byte by byte, looking ahead k bytes every time: literals, text with escapes *)
RECURSIVE Run(_, _, _, _)
Run(w, n, k, good) ==
    IF n = 0 THEN [w |-> w, ok |-> good]
    ELSE LET x == Peek(w, k)
             y == Peek(x, 1)
         IN  IF Left(y) < 1 THEN [w |-> y, ok |-> good /\ FALSE]
             ELSE Run([y EXCEPT !.p = @ + 1], n - 1, k, good /\ y.buf[y.p + 1] = q + 1 + (y.p - y.a))
Until(n, k) ==
    /\ q + n < F
    /\ LET r == Run([W EXCEPT !.a = p], n, k, TRUE) IN
       /\ Set(r.w) /\ q' = q + n
       /\ ok' = (r.ok /\ Same(r.w, r.w.a, n, q))
       /\ Log(IF k = 1 THEN "until" ELSE "look", n)

Next == /\ Len(hist) < MaxOps
        /\ ~(hist # <<>> /\ hist[Len(hist)].op = "fail")
        /\ \E n \in 1..MaxN : Block(n) \/ Until(n, 1) \/ Until(n, 2)
Spec == Init /\ [][Next]_vars

(* what is in the window is what is next in the file *)
Aligned == Same([buf |-> buf, p |-> p], p, Len(buf) - p, q)
Right   == ok
(* the file is read in order, and completely, when its end is met *)
Ordered == file = q + Len(buf) - p
AtEnd   == eof => file = F

Emit == IF Len(hist) = MaxOps THEN PrintT("SCRIPT " \o ToJson([ops |-> hist])) ELSE TRUE
=============================================================================
