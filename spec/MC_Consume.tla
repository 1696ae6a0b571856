----------------------------- MODULE MC_Consume -----------------------------
(***************************************************************************)
(* Restoring an object directly from a source.  The source is read once,   *)
(* from front to back; what a field is not asked for yet is set aside and  *)
(* looked at first when the next field is asked for.  An object found in   *)
(* the source is restored in place (its items are read from the source),   *)
(* one that was set aside from memory; what remains of it is skipped.      *)
(*                                                                         *)
(* Every document and every target within the bounds is explored: the      *)
(* outcome is the one of looking the fields up in the whole document       *)
(* (Eager), and no item gets lost or out of order on the way.  The pairs   *)
(* are printed and replayed in the implementation.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxItems, MaxSub, MaxReqs, Sample

Names == {"a", "b"}
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}

Leaves == {[k |-> "v", n |-> n, sub |-> <<>>] : n \in Names}
Items  == Leaves \cup {[k |-> "c", n |-> n, sub |-> s] : n \in Names, s \in SeqsUpTo(Leaves, MaxSub)}
Docs   == SeqsUpTo(Items, MaxItems)

NoRepeats(s) == \A i, j \in DOMAIN s : i # j => (s[i].k # s[j].k \/ s[i].n # s[j].n)
LeafReqs == {[k |-> "v", n |-> n, opt |-> o, sub |-> <<>>] : n \in Names, o \in BOOLEAN}
SubPlans == {s \in SeqsUpTo(LeafReqs, 2) : NoRepeats(s)}
Reqs == {[k |-> "v", n |-> n, opt |-> n = "b", sub |-> <<>>] : n \in Names}
        \cup {[k |-> "c", n |-> n, opt |-> n = "b", sub |-> s] : n \in Names, s \in SubPlans}
(* by position: without names, and never optional *)
PosReqs == {[k |-> "v", n |-> "", opt |-> FALSE, sub |-> <<>>]}
           \cup {[k |-> "c", n |-> "", opt |-> FALSE, sub |-> s] : s \in {t \in SubPlans : Len(t) <= 1}}
Plans == {s \in SeqsUpTo(Reqs, MaxReqs) : NoRepeats(s)} \cup SeqsUpTo(PosReqs, MaxReqs)

-----------------------------------------------------------------------------
(* The item of a scope a field is restored from: index, or 0 *)
Fits(q, x) == x.k = q.k /\ (q.n = "" \/ x.n = q.n)
Nth(items, q, n) ==
    LET is == {i \in 1..Len(items) : Fits(q, items[i])}
    IN  IF Cardinality(is) < n THEN 0
        ELSE CHOOSE i \in is : Cardinality({j \in is : j <= i}) = n
Fail == [ok |-> FALSE, i |-> 0, e |-> <<>>]
RECURSIVE Eager(_, _)
Eager(items, plan) ==
    LET at(i) == Nth(items, plan[i], IF plan[i].n # "" THEN 1
                                     ELSE 1 + Cardinality({j \in 1..(i - 1) : plan[j].k = plan[i].k}))
        one(i) == IF at(i) = 0 THEN [ok |-> plan[i].opt, i |-> 0, e |-> <<>>]
                  ELSE IF plan[i].k = "v" THEN [ok |-> TRUE, i |-> at(i), e |-> <<>>]
                  ELSE LET r == Eager(items[at(i)].sub, plan[i].sub) IN [ok |-> r.ok, i |-> at(i), e |-> r.e]
    IN  IF \A i \in 1..Len(plan) : one(i).ok
        THEN [ok |-> TRUE, i |-> 0, e |-> [i \in 1..Len(plan) |-> one(i)]] ELSE Fail

-----------------------------------------------------------------------------
VARIABLES doc, plan,       \* what is restored to what
          stack,           \* objects being restored, innermost first
          st               \* "run", "done", "exc"
vars == <<doc, plan, stack, st>>
(* frame: rest: items to come in the source; kept: set aside; reqs: fields to come; out: the ones done; i: index of the item *)
Numbered(items) == [i \in 1..Len(items) |-> [x |-> items[i], i |-> i]]
Open(items, direct, reqs, i) == [rest |-> IF direct THEN Numbered(items) ELSE <<>>, kept |-> IF direct THEN <<>> ELSE Numbered(items),
                                 reqs |-> reqs, out |-> <<>>, i |-> i]

Init == doc \in Docs /\ plan \in Plans /\ stack = <<Open(doc, TRUE, plan, 0)>> /\ st = "run"

Top == stack[1]
With(f) == <<f>> \o Tail(stack)
Running == st = "run" /\ stack # <<>>
Q == Head(Top.reqs)
Kept == {i \in 1..Len(Top.kept) : Fits(Q, Top.kept[i].x)}
Got(f, y) == [f EXCEPT !.out = Append(@, [ok |-> TRUE, i |-> y, e |-> <<>>]), !.reqs = Tail(@)]
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

FromKept ==
    /\ Running /\ Top.reqs # <<>> /\ Kept # {}
    /\ LET i == CHOOSE i \in Kept : \A j \in Kept : i <= j
           y == Top.kept[i]
           f == [Top EXCEPT !.kept = Drop(@, i)]
       IN  stack' = IF Q.k = "v" THEN With(Got(f, y.i))
                    ELSE <<Open(y.x.sub, FALSE, Q.sub, y.i)>> \o With(f)
    /\ UNCHANGED <<doc, plan, st>>
FromSource ==
    /\ Running /\ Top.reqs # <<>> /\ Kept = {} /\ Top.rest # <<>> /\ Fits(Q, Head(Top.rest).x)
    /\ LET y == Head(Top.rest)
           f == [Top EXCEPT !.rest = Tail(@)]
       IN  stack' = IF Q.k = "v" THEN With(Got(f, y.i))
                    ELSE <<Open(y.x.sub, TRUE, Q.sub, y.i)>> \o With(f)
    /\ UNCHANGED <<doc, plan, st>>
SetAside ==
    /\ Running /\ Top.reqs # <<>> /\ Kept = {} /\ Top.rest # <<>> /\ ~Fits(Q, Head(Top.rest).x)
    /\ stack' = With([Top EXCEPT !.rest = Tail(@), !.kept = Append(@, Head(Top.rest))])
    /\ UNCHANGED <<doc, plan, st>>
Missing ==
    /\ Running /\ Top.reqs # <<>> /\ Kept = {} /\ Top.rest = <<>>
    /\ IF Q.opt THEN stack' = With(Got(Top, 0)) /\ st' = st ELSE stack' = stack /\ st' = "exc"
    /\ UNCHANGED <<doc, plan>>
(* the rest of an object is skipped, the object belongs to the one around it *)
Close ==
    /\ Running /\ Top.reqs = <<>>
    /\ IF Len(stack) = 1 THEN st' = "done" /\ stack' = stack
       ELSE /\ stack' = LET p == stack[2] IN
                <<[p EXCEPT !.out = Append(@, [ok |-> TRUE, i |-> Top.i, e |-> Top.out]), !.reqs = Tail(@)]>> \o SubSeq(stack, 3, Len(stack))
            /\ st' = st
    /\ UNCHANGED <<doc, plan>>
Next == FromKept \/ FromSource \/ SetAside \/ Missing \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
SameOutcome ==
    /\ st = "exc"  => ~Eager(doc, plan).ok
    /\ st = "done" => Eager(doc, plan).ok /\ Eager(doc, plan).e = Top.out
(* kept items come before the ones to be read, both in the order of the source *)
InOrder ==
    \A k \in 1..Len(stack) :
        LET s == stack[k].kept \o stack[k].rest IN \A i, j \in 1..Len(s) : i < j => s[i].i < s[j].i
Ends == <>(st # "run")
Emit == st = "run" \/ (Sample # 1 /\ RandomElement(1..Sample) # 1) \/ PrintT("SCRIPT " \o ToJson([doc |-> doc, plan |-> plan]))
=============================================================================
