------------------------------ MODULE MC_Session ------------------------------
(***************************************************************************)
(* A Tree with its environment, and parsers with states of their own       *)
(* (scopes that are open), used for one operation after another.  Every    *)
(* operation begins by setting the parser and the buffers up, takes or     *)
(* writes tokens one by one, and may fail before each of them and at the   *)
(* end: user code throws, the source is malformed, the stream breaks.      *)
(* Insertions go to the writer while the environment is "parsing", into    *)
(* the document held otherwise.  Storing has a table of shared objects of  *)
(* its own.  Failing or not, an operation must do what it does to new      *)
(* instances: the tokens written are those of the object, those read come  *)
(* with the right depth, and the document held is changed by loading and   *)
(* editing only.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxOps, Parsers, Sample

(* an object: open, value, shared, shared (again), close *)
Tokens == <<"open", "value", "key", "key", "close">>
Kinds == {"load", "restore", "store", "pack", "lobj", "write", "edit"}
Writes == {"store", "pack", "write"}
Ops == [k : Kinds, p : Parsers, fail : 0..(Len(Tokens) + 1)]     \* fail = 0: it doesn't

VARIABLES ops, pc, pos,
          held,          \* tokens of the document held, or <<"unknown">>
          scope,         \* of each parser: scopes that are open
          parsing, table, saved, \* keys of shared objects
          out, sink,     \* not flushed yet; what has got out
          good
vars == <<ops, pc, pos, held, scope, parsing, table, saved, out, sink, good>>
Unknown == <<"unknown">>
Doc == <<"open", "value", "key1", "key1", "close">>

Init == /\ ops = <<>> /\ pc = "idle" /\ pos = 0 /\ held = <<>> /\ scope = [p \in Parsers |-> 0] /\ parsing = FALSE
        /\ table = 0 /\ saved = 0 /\ out = <<>> /\ sink = <<>> /\ good = TRUE
Cur == ops[Len(ops)]
P == Cur.p

Begin == /\ pc = "idle" /\ Len(ops) < MaxOps
         /\ \E o \in Ops :
              /\ (o.k \in {"write", "edit"} => o.fail \in {0, 3}) = TRUE
              /\ (o.k \in {"edit", "lobj"} => o.p = CHOOSE p \in Parsers : TRUE) = TRUE
              /\ ops' = Append(ops, o)
         /\ pc' = "setup" /\ UNCHANGED <<pos, held, scope, parsing, table, saved, out, sink, good>>
(* the parser forgets what it was doing, so do the buffers *)
SetUp == /\ pc = "setup" /\ pc' = "run" /\ pos' = 1
         /\ scope' = IF Cur.k \in {"lobj", "edit"} THEN scope ELSE [scope EXCEPT ![P] = 0]
         /\ out' = IF Cur.k \in Writes THEN <<>> ELSE out
         /\ sink' = <<>>
         /\ parsing' = (Cur.k \in {"store", "pack"})
         /\ saved' = IF Cur.k = "store" THEN table ELSE saved
         /\ table' = IF Cur.k \in {"store", "pack", "load", "restore", "lobj"} THEN 0 ELSE table
         /\ held' = IF Cur.k \in {"load", "restore", "pack", "lobj"} THEN <<>> ELSE held
         /\ UNCHANGED <<ops, good>>
Token(t, tab) == IF t = "key" THEN "key1" ELSE t
Depth(t, n) == CASE t = "open" -> n + 1 [] t = "close" -> n - 1 [] OTHER -> n
Fails == Cur.fail # 0 /\ pos = Cur.fail
Running == pc = "run" /\ pos <= Len(Tokens) /\ ~Fails
(* the keys of an object: "key1" when the table is empty before its first *)
Key == IF table = 0 THEN "key1" ELSE IF table = 1 /\ Tokens[pos - 1] = "key" THEN "key1" ELSE "key2"
Insert == /\ Running /\ Cur.k \in {"store", "pack", "lobj"}
          /\ LET t == IF Tokens[pos] = "key" THEN Key ELSE Tokens[pos] IN
             /\ table' = IF Tokens[pos] = "key" /\ table = 0 THEN 1 ELSE table
             /\ IF parsing THEN /\ out' = Append(out, t) /\ scope' = [scope EXCEPT ![P] = IF Tokens[pos] = "close" /\ @ = 0 THEN 0 ELSE Depth(Tokens[pos], @)]
                                /\ good' = (good /\ (Tokens[pos] = "open" => scope[P] = 0))
                                /\ UNCHANGED held
                ELSE held' = Append(held, t) /\ UNCHANGED <<out, scope, good>>
          /\ pos' = pos + 1 /\ UNCHANGED <<ops, pc, parsing, saved, sink>>
Write == /\ Running /\ Cur.k = "write"
         /\ out' = held /\ pos' = Len(Tokens) + 1
         /\ UNCHANGED <<ops, pc, held, scope, parsing, table, saved, sink, good>>
Read == /\ Running /\ Cur.k \in {"load", "restore"}
        /\ scope' = [scope EXCEPT ![P] = IF Tokens[pos] = "close" /\ @ = 0 THEN 0 ELSE Depth(Tokens[pos], @)]
        /\ good' = (good /\ (Tokens[pos] = "open" => scope[P] = 0) /\ (Tokens[pos] = "close" => scope[P] = 1))
        \* loading doesn't ask what insertions are for
        /\ held' = IF Cur.k = "load" THEN Append(held, IF Tokens[pos] = "key" THEN "key1" ELSE Tokens[pos]) ELSE Unknown
        /\ pos' = pos + 1 /\ UNCHANGED <<ops, pc, parsing, table, saved, out, sink>>
Edit == /\ Running /\ Cur.k = "edit"
        /\ IF parsing THEN good' = FALSE /\ UNCHANGED held ELSE held' = (IF held = Unknown THEN Unknown ELSE Append(held, "more")) /\ UNCHANGED good
        /\ pos' = Len(Tokens) + 1 /\ UNCHANGED <<ops, pc, scope, parsing, table, saved, out, sink>>
(* guards put things right, whether it worked or not *)
Leave == /\ parsing' = FALSE
         /\ table' = IF Cur.k = "store" THEN saved ELSE IF Cur.k = "pack" THEN 0 ELSE table
         /\ pc' = "idle" /\ pos' = 0
         /\ held' = IF Cur.k = "pack" \/ (Cur.k = "restore") THEN Unknown ELSE held
Done == /\ pc = "run" /\ pos = Len(Tokens) + 1 /\ ~Fails
        /\ sink' = (IF Cur.k \in Writes THEN out ELSE sink)
        /\ out' = out
        /\ good' = (good /\ (Cur.k \in {"store", "pack"} => sink' = Doc)
                         /\ (Cur.k = "write" => sink' = held)
                         /\ (Cur.k \in {"load", "lobj"} => held = Doc)
                         /\ (Cur.k = "edit" => held = Unknown \/ Len(held) > 0))
        /\ Leave /\ UNCHANGED <<ops, scope, saved>>
Fail == /\ pc = "run" /\ Fails
        /\ parsing' = FALSE /\ pc' = "idle" /\ pos' = 0
        /\ table' = IF Cur.k = "store" THEN saved ELSE IF Cur.k = "pack" THEN 0 ELSE table
        /\ held' = IF Cur.k \in {"load", "lobj", "restore", "pack"} THEN Unknown ELSE held
        /\ UNCHANGED <<ops, scope, saved, out, sink, good>>
Next == Begin \/ SetUp \/ Insert \/ Write \/ Read \/ Edit \/ Done \/ Fail
Spec == Init /\ [][Next]_vars

Good == good
Idle == pc = "idle" => ~parsing
(* storing and writing leave the document alone *)
Kept == [][pc = "run" /\ Cur.k \in {"store", "write"} => held' = held]_vars
Emit == ~(pc = "idle" /\ Len(ops) = MaxOps) \/ (Sample # 1 /\ RandomElement(1..Sample) # 1) \/ PrintT("SCRIPT " \o ToJson([ops |-> ops]))
=============================================================================
