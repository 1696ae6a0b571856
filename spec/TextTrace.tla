------------------------------ MODULE TextTrace ------------------------------
(***************************************************************************)
(* Conversion, storing and comparison of text in several encodings, of     *)
(* binary data, base64 and hex.  One transition per case.                  *)
(*                                                                         *)
(* Text comes as bytes b in an encoding, with the code points c of its     *)
(* longest valid part; both have to agree.                                 *)
(***************************************************************************)
EXTENDS Text, TLC, Json, IOUtils, FiniteSets

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Result == ndJsonDeserialize(IOEnv.RESULT)

VARIABLE l
C == Script[l]
R == Result[l]
Init == l = 1

(* Is text b of encoding e valid? c: its code points, or those before the first error *)
Valid(e, b, c) ==
    LET x == TLCEval(Encode(e, c))
        n == Len(x)
    IN  /\ Assert(n <= Len(b) /\ SubSeq(b, 1, n) = x, <<"code points", l>>)
        /\ IF n = Len(b) THEN TRUE
           ELSE Assert(NextCp(e, b, n + 1)[1] = -1, <<"error", l>>) /\ FALSE

Width(e) == e \div 8
Whole(e, b) == Len(b) % Width(e) = 0

Yields(r, b) == r.st = "ok" /\ r.b = b
Fails(r) == r.st = "exc"

-----------------------------------------------------------------------------
(* Conversion: without one, anything is accepted *)
Conv ==
    LET valid == Valid(C.from, C.b, C.c) IN
    /\ R.st = "ok" /\ R.pre
    /\ Len(R.outs) = 1 /\ Len(R.quiet) = 1
    /\ IF C.from = C.to THEN Yields(R.outs[1], C.b) /\ Yields(R.quiet[1], C.b)
       ELSE IF valid THEN LET x == TLCEval(Encode(C.to, C.c)) IN Yields(R.outs[1], x) /\ Yields(R.quiet[1], x)
       ELSE Fails(R.outs[1]) /\ Yields(R.quiet[1], <<>>)

(* Which encoding is the text in when it is restored? Documents are read in UTF-8. *)
Held == IF C.path = "mem" THEN C.from ELSE 8
Capacity == CASE C.as = "a16" -> 15 [] C.as = "a3k" -> 2999 [] OTHER -> -1
Store ==
    LET valid == Valid(C.from, C.b, C.c)
        target == IF C.as = "S" THEN Held ELSE C.to
        convert == C.from # Held \/ Held # target
        x == IF convert THEN TLCEval(Encode(target, C.c)) ELSE C.b
        units == Len(x) \div Width(target)
    IN  IF convert /\ ~valid THEN Fails(R)
        ELSE IF Capacity >= 0 /\ units > Capacity THEN Fails(R)
        ELSE IF C.as = "ch" /\ units # 1 THEN Fails(R)
        ELSE Yields(R, x) /\ (C.as = "S" => Len(x) = 0 \/ R.enc = target)

-----------------------------------------------------------------------------
(* Names are kept in UTF-8. A name is valid or it is rejected, unless it is in UTF-8 already. *)
Accepted8(n) == n.enc = 8 \/ Valid(n.enc, n.b, n.c)
Utf8Name(n) == IF n.enc = 8 THEN n.b ELSE Encode(8, n.c)
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Names ==
    LET ok == [i \in 1..Len(C.names) |-> Accepted8(C.names[i])]
        held == [i \in 1..Len(C.names) |-> IF ok[i] THEN TLCEval(Utf8Name(C.names[i])) ELSE <<>>]
        found(a) ==
            IF ~Accepted8(a) THEN -1
            ELSE LET x == TLCEval(Utf8Name(a))
                     S == {i \in 1..Len(held) : ok[i] /\ held[i] = x /\ C.names[i].n = a.n}
                 IN  IF S = {} THEN -1 ELSE First(S)
    IN  /\ \A i \in 1..Len(C.names) : R.ins[i] = (IF ok[i] THEN "ok" ELSE "exc")
        \* a name that nothing is left to be compared to need not be converted
        /\ IF C.path = "obj" /\ R.st = "exc" THEN \E i \in 1..Len(C.asks) : ~Accepted8(C.asks[i])
           ELSE R.st = "ok" /\ \A i \in 1..Len(C.asks) : R.asks[i] = found(C.asks[i])

Eq == /\ Assert(Valid(C.a.enc, C.a.b, C.a.c) /\ Valid(C.z.enc, C.z.b, C.z.c), <<"text", l>>)
      /\ R.st = "ok" /\ R.x = (C.a.c = C.z.c) /\ R.y = R.x

-----------------------------------------------------------------------------
B64Enc == R.st = "ok" /\ Len(R.outs) = 1 /\ Yields(R.outs[1], Base64(C.b))
HexEnc == R.st = "ok" /\ Len(R.outs) = 1 /\ Yields(R.outs[1], Hex(C.b))
(* Bits that are not used may be set or rejected *)
Canonical(t) == Base64(UnBase64(t)) = t
B64Dec ==
    /\ R.st = "ok" /\ Len(R.outs) = 1
    /\ IF ~IsBase64(C.b) THEN Fails(R.outs[1])
       ELSE IF Canonical(C.b) THEN Yields(R.outs[1], UnBase64(C.b))
       ELSE Fails(R.outs[1]) \/ Yields(R.outs[1], UnBase64(C.b))
HexDec ==
    /\ R.st = "ok" /\ Len(R.outs) = 1 /\ R.small
    /\ IF IsHex(C.b) THEN Yields(R.outs[1], UnHex(C.b)) ELSE Fails(R.outs[1])

(* Binary data, as it is restored; text is taken for base64 *)
ElemSize == CASE C.as = "v2" -> 2 [] C.as = "v4" -> 4 [] C.as = "v8" -> 8 [] OTHER -> 1
JsonText == <<123, 34, 116, 34, 58, 34>> \o Base64(C.b) \o <<34, 125>>          \* {"t":"..."}
Bin ==
    LET text == C.ty = "text"
        bad == text /\ ~IsBase64(C.b)
        x == IF text /\ ~bad THEN UnBase64(C.b) ELSE C.b
    IN  /\ IF bad \/ Len(x) % ElemSize # 0 THEN Fails(R)
           ELSE IF text /\ ~Canonical(C.b) THEN Fails(R) \/ Yields(R, x)
           ELSE Yields(R, x)
        /\ (C.fmt = "json" \/ C.fmt = "jsonp") /\ C.path # "mem" /\ ~text => R.src = JsonText

Case == CASE C.op = "conv" -> Conv
          [] C.op = "store" -> Store
          [] C.op = "names" -> Names
          [] C.op = "eq" -> Eq
          [] C.op = "b64enc" -> B64Enc
          [] C.op = "hexenc" -> HexEnc
          [] C.op = "b64dec" -> B64Dec
          [] C.op = "hexdec" -> HexDec
          [] C.op = "bin" -> Bin

Next == l <= Len(Script) /\ R.st \in {"ok", "exc"} /\ (Case = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l

Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
