------------------------------- MODULE MC_Poly -------------------------------
(***************************************************************************)
(* How an object behind a pointer to its base is replaced, step by step:   *)
(* its class id is looked up, an object of the class is made, turned down  *)
(* if it isn't derived from the base asked for, and gets its fields, among *)
(* them objects of their own; then the old object goes.  Whatever fails on *)
(* the way, user code included, no object is left behind, and the pointer  *)
(* is never seen with an object that isn't complete or of another base.    *)
(* Identifiers may be registered between the restorings.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Sample, Slots

BaseOf(s) == CASE s \in {"raw", "uni"} -> "Base" [] s = "ua" -> "A" [] s = "oth" -> "Other"
Is_(c, b) == CASE b = "Base" -> c # "Z" [] b = "Other" -> c = "Z" [] b = "A" -> c \in {"A", "D"}
Static == {"A", "D", "B", "Z"}
Ids == Static \cup {"x", "y"}
NoId == "none"

Bodies == {"ok", "bad", "throw"}
(* kid: the object inside of a B: "" for none *)
Docs == [k : {"from"}, slot : Slots, id : Ids \cup {NoId}, body : Bodies, kid : {"", "A", "Z", "bad"}, late : BOOLEAN]
Ops == Docs \cup [k : {"reg"}, id : {"x", "y", "A"}, c : {"A", "B", "Z"}]
Useful(o, reg) ==
    IF o.k = "reg" THEN TRUE
    ELSE LET c == IF o.id \in DOMAIN reg THEN reg[o.id] ELSE "" IN
       /\ (o.kid # "" => c = "B") /\ (c = "" => o.body = "ok") /\ (o.body = "throw" => c = "B")

VARIABLES ops, done, reg, live, target, frames, pc, kids
vars == <<ops, done, reg, live, target, frames, pc, kids>>
(* live: objects there are, with their classes; kids: who owns whom *)
(* frames: the objects being restored, the outermost first         *)

New == CHOOSE n \in 1..40 : n \notin DOMAIN live /\ \A m \in 1..(n - 1) : m \in DOMAIN live
Del(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Owned(o) == {o} \cup (IF o \in DOMAIN kids THEN kids[o] ELSE {})
Cur == ops[done + 1]
Top == frames[Len(frames)]

Init == /\ ops = <<>> /\ done = 0 /\ reg = [i \in Static |-> i] /\ live = <<>> /\ target = [s \in Slots |-> 0]
        /\ frames = <<>> /\ pc = "idle" /\ kids = <<>>
Begin == /\ pc = "idle" /\ Len(ops) < MaxOps
         /\ \E o \in Ops : (Useful(o, reg) = TRUE) /\ ops' = Append(ops, o) /\ pc' = (IF o.k = "reg" THEN "reg" ELSE "lookup")
         /\ UNCHANGED <<done, reg, live, target, frames, kids>>
Finish == done' = done + 1 /\ pc' = "idle"
Registering == /\ pc = "reg" /\ Finish
               /\ reg' = IF Cur.id \in DOMAIN reg THEN reg ELSE [i \in DOMAIN reg \cup {Cur.id} |-> IF i = Cur.id THEN Cur.c ELSE reg[i]]
               /\ UNCHANGED <<ops, live, target, frames, kids>>
(* what is restored now: the object of the document, or the one inside *)
Inner == frames # <<>>
Id == IF Inner THEN (IF Cur.kid = "bad" THEN "nothing" ELSE Cur.kid) ELSE Cur.id
Want == IF Inner THEN "Base" ELSE BaseOf(Cur.slot)
LookUp == /\ pc = "lookup" /\ pc' = (IF Id \in DOMAIN reg THEN "make" ELSE "fail")
          /\ UNCHANGED <<ops, done, reg, live, target, frames, kids>>
Make == /\ pc = "make"
        /\ LET n == New IN live' = [x \in DOMAIN live \cup {n} |-> IF x = n THEN reg[Id] ELSE live[x]] /\ frames' = Append(frames, n)
        /\ pc' = "check" /\ UNCHANGED <<ops, done, reg, target, kids>>
Check == /\ pc = "check"
         /\ pc' = (IF Is_(live[Top], IF Len(frames) = 2 THEN "Base" ELSE BaseOf(Cur.slot)) THEN "fields" ELSE "fail")
         /\ UNCHANGED <<ops, done, reg, live, target, frames, kids>>
(* the object inside comes first, then the others *)
Fields == /\ pc = "fields"
          /\ pc' = (IF Len(frames) = 2 THEN "hand" ELSE IF Cur.kid # "" /\ Top \notin DOMAIN kids THEN "lookup" ELSE IF Cur.body = "ok" THEN "swap" ELSE "fail")
          /\ UNCHANGED <<ops, done, reg, live, target, frames, kids>>
(* the object inside belongs to the outer one now *)
Hand == /\ pc = "hand"
        /\ kids' = [x \in DOMAIN kids \cup {frames[1]} |-> IF x = frames[1] THEN {frames[2]} ELSE kids[x]]
        /\ frames' = <<frames[1]>> /\ pc' = "fields" /\ UNCHANGED <<ops, done, reg, live, target>>
Swap == /\ pc = "swap"
        /\ LET old == IF target[Cur.slot] = 0 THEN {} ELSE Owned(target[Cur.slot])
           IN  live' = Del(live, old) /\ kids' = Del(kids, old)
        /\ target' = [target EXCEPT ![Cur.slot] = Top] /\ frames' = <<>>
        /\ Finish /\ UNCHANGED <<ops, reg>>
(* unwinding *)
Fail == /\ pc = "fail"
        /\ IF frames = <<>> THEN Finish /\ UNCHANGED <<live, frames, kids>>
           ELSE /\ live' = Del(live, Owned(Top)) /\ kids' = Del(kids, Owned(Top))
                /\ frames' = SubSeq(frames, 1, Len(frames) - 1) /\ UNCHANGED <<pc, done>>
        /\ UNCHANGED <<ops, reg, target>>
Next == Begin \/ Registering \/ LookUp \/ Make \/ Check \/ Fields \/ Hand \/ Swap \/ Fail
Spec == Init /\ [][Next]_vars

Valid == \A s \in Slots : LET o == target[s] IN
             o # 0 => /\ o \in DOMAIN live /\ Is_(live[o], BaseOf(s)) /\ o \notin {frames[i] : i \in DOMAIN frames}
                      /\ \A t \in Slots \ {s} : target[t] # o
NoLeaks == pc = "idle" => DOMAIN live = UNION {IF target[s] = 0 THEN {} ELSE Owned(target[s]) : s \in Slots}
OwnersLive == DOMAIN kids \subseteq DOMAIN live /\ \A o \in DOMAIN kids : kids[o] \subseteq DOMAIN live

(* scripts for the implementation *)
Emit == ~(pc = "idle" /\ done = MaxOps) \/ (Sample # 1 /\ RandomElement(1..Sample) # 1) \/ PrintT("SCRIPT " \o ToJson([ops |-> ops]))
=============================================================================
