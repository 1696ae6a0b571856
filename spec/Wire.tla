-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* Documents and their encodings.  The machine reads an encoding item by   *)
(* item and compares it with a document: one transition per item.          *)
(*                                                                         *)
(* The encoding and the document come from the implementation: bytes it    *)
(* wrote for a given document (op "w"), or the document it loaded from     *)
(* given bytes (op "r").  The other operations are single transitions:     *)
(*   "rt"   a chain of conversions; the document after every hop           *)
(*   "raw"  arbitrary bytes: anything but success or exception is wrong    *)
(* "cut" is like "r", but it is proper prefixes that were read; "nest" is  *)
(* like "r" for documents whose scopes may be nested too deeply.  (The      *)
(* document is not recorded if its scopes are nested more than 40 deep:    *)
(* TLC's JSON parser cannot read it.)                                      *)
(***************************************************************************)
EXTENDS Formats, TLC, Json, IOUtils

Script == ndJsonDeserialize(IOEnv.SCRIPT)
Result == ndJsonDeserialize(IOEnv.RESULT)

VARIABLES l,     \* index of the current case
          pos,   \* position in its bytes
          st,    \* frames of open scopes, outermost first
          tab,   \* names spelled out so far (Srl format)
          ph     \* phase of the case: "run", "fin"
vars == <<l, pos, st, tab, ph>>

C == Script[l]
R == Result[l]

Init == l = 1 /\ pos = 1 /\ st = <<>> /\ tab = <<>> /\ ph = "run"

NextCase == l' = l + 1 /\ pos' = 1 /\ st' = <<>> /\ tab' = <<>> /\ ph' = "run"

Settled == R.st \in {"ok", "exc"}          \* no crash, no hang, no foreign exception

-----------------------------------------------------------------------------
Bytes == IF C.op = "w" THEN R.b ELSE C.b
Known == C.op = "w" \/ (C.op = "r" /\ R.st = "ok" /\ "doc" \in DOMAIN R)         \* is there a document to compare with?
Doc   == IF C.op = "w" THEN C.doc ELSE R.doc

Top == IF st = <<>> THEN NoFrame ELSE st[Len(st)]
Item1 == Item(C.fmt, TLCEval(Bytes), pos, TLCEval(Top), tab)

Walking == C.op \in {"w", "r", "cut", "nest"} /\ ph = "run" /\ (IF C.op = "w" THEN R.st = "ok" ELSE Settled)

(* At most that many scopes are open below the root *)
MaxNested == 128
TooDeep == C.op \in {"r", "nest"} /\ Len(st) > MaxNested

(* The value is where and what it has to be *)
MatchVal(it) ==
    IF ~Known THEN TRUE ELSE
    LET d == ScopeAt(Doc, PathOf(st))
        i == Top.nv + 1
    IN  /\ i <= Len(d.v)
        /\ it.n = (IF C.op = "w" THEN WrittenName(d.t, d.v[i].n) ELSE d.v[i].n)
        /\ IF C.op = "w" THEN WrittenAs(it.s, AsWritten(C.fmt, d.v[i].s))
           ELSE ReadAs(it.s, d.v[i].s)

MatchOpen(it) ==
    IF ~Known THEN TRUE ELSE
    IF st = <<>> THEN Doc.t = it.t
    ELSE LET d == ScopeAt(Doc, PathOf(st))
             i == Top.nc + 1
         IN  /\ i <= Len(d.c)
             /\ it.n = (IF C.op = "w" THEN WrittenName(d.t, d.c[i].n) ELSE d.c[i].n)
             /\ d.c[i].d.t = it.t

MatchEnd ==
    IF ~Known THEN TRUE ELSE
    LET d == ScopeAt(Doc, PathOf(st))
    IN  Top.nv = Len(d.v) /\ Top.nc = Len(d.c)

(* A name is spelled out only once by the implementation *)
FreshName(it) == C.op # "w" \/ C.fmt # "srl" \/ it.tab = tab \/ \A i \in 1..Len(tab) : tab[i] # it.n

ReadValue(it) ==
       /\ it.st = "val"
       /\ FreshName(it) = TRUE
       /\ MatchVal(it) = TRUE
       /\ pos' = it.next
       /\ tab' = it.tab
       /\ st' = CountItem(st, it)
       /\ UNCHANGED <<l, ph>>

OpenScope(it) ==
       /\ it.st = "open"
       /\ ~TooDeep
       /\ FreshName(it) = TRUE
       /\ MatchOpen(it) = TRUE
       /\ pos' = it.next
       /\ tab' = it.tab
       /\ st' = Append(CountItem(st, it), Frame(it.t, it.left))
       /\ UNCHANGED <<l, ph>>

(* One more scope than there may be: the document is rejected, whatever follows *)
Exceed(it) ==
       /\ it.st = "open"
       /\ TooDeep
       /\ R.st = "exc"
       /\ NextCase

EndScope(it) ==
       /\ it.st = "end"
       /\ MatchEnd = TRUE
       /\ pos' = it.next
       /\ tab' = it.tab
       /\ st' = Front(st)
       /\ ph' = IF Len(st) = 1 THEN "fin" ELSE "run"
       /\ UNCHANGED l

(* The root scope was closed: the case is over.  Valid input is accepted. *)
Finish ==
    /\ C.op \in {"w", "r", "cut", "nest"} /\ ph = "fin"
    /\ R.st = "ok"                \* "cut": the driver did its work
    /\ IF C.op = "cut" THEN \A i \in 1..Len(C.cuts) : C.cuts[i] < pos - 1 => R.sts[i] = "exc" ELSE TRUE
    /\ IF AtEnd(C.fmt, Bytes, pos) THEN TRUE
       ELSE C.op = "r" /\ Assert(~C.wf, <<"generated input is not well-formed: trailing data", l>>)
    /\ NextCase

(* Input that is not well-formed: there is no claim about it here *)
Malformed(it) ==
    /\ C.op \in {"r", "cut", "nest"}
    /\ it.st = "no"
    /\ Assert(~C.wf, <<"generated input is not well-formed", l, pos>>)
    /\ NextCase

Step ==
    /\ Walking
    /\ LET i1 == TLCEval(Item1)
           it == IF st = <<>> /\ i1.st # "open" THEN NoItem ELSE i1      \* the root is a scope
       IN  ReadValue(it) \/ OpenScope(it) \/ Exceed(it) \/ EndScope(it) \/ Malformed(it)

-----------------------------------------------------------------------------
RECURSIVE ChainBack(_, _, _)
ChainBack(d, fmts, docs) ==
    IF fmts = <<>> THEN TRUE
    ELSE DocBack(Head(fmts), d, Head(docs)) /\ ChainBack(Head(docs), Tail(fmts), Tail(docs))

RoundTrip ==
    /\ C.op = "rt"
    /\ R.st = "ok"
    /\ Len(R.docs) = Len(C.fmts)
    /\ ChainBack(C.doc, C.fmts, R.docs) = TRUE
    /\ NextCase

Raw ==
    /\ C.op = "raw"
    /\ Settled
    /\ NextCase

Next == /\ l <= Len(Script)
        /\ Step \/ Finish \/ RoundTrip \/ Raw

Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Track == TLCSet(1, l)
Accepted ==
    \/ TLCGet(1) = Len(Script) + 1
    \/ PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
