------------------------------ MODULE TableApi ------------------------------
(***************************************************************************)
(* The hash table: a finite map.  A table is a function from keys to       *)
(* [v |-> value, a |-> address of the value].                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == <<>>
Keys(t) == DOMAIN t
Without(t, K) == [k \in Keys(t) \ K |-> t[k]]

(* addresses of live values of all tables *)
Addresses(ts) == {ts[i][k].a : <<i, k>> \in UNION {{<<j, x>> : x \in Keys(ts[j])} : j \in 1..Len(ts)}}
Entries(ts) == [i \in 1..Len(ts) |-> Cardinality(Keys(ts[i]))]

(* a: address of the value, as observed *)
Apply(ts, o, a) ==
    LET t == ts[o.t]
        put == [ts EXCEPT ![o.t] = (o.k :> [v |-> o.v, a |-> IF o.k \in Keys(t) THEN t[o.k].a ELSE a]) @@ t]
    IN  CASE o.op = "ins" -> (IF o.k \in Keys(t) THEN ts ELSE put)
          [] o.op = "ups" -> put
          [] o.op = "set" -> (IF o.k \in Keys(t) THEN put ELSE ts)
          [] o.op \in {"rem", "ext"} -> [ts EXCEPT ![o.t] = Without(t, {o.k})]
          [] o.op = "rmif" -> [ts EXCEPT ![o.t] = Without(t, {o.ks[i] : i \in 1..Len(o.ks)})]
          [] o.op \in {"clr", "new"} -> [ts EXCEPT ![o.t] = Empty]
          [] o.op \in {"mov", "mvc"} -> [ts EXCEPT ![o.t] = ts[o.u], ![o.u] = Empty]
          [] o.op \in {"get", "each", "brk", "it"} -> ts

(* every entry once: l is a sequence of [k, v, a] *)
Visits(t, l, n) ==
    /\ Len(l) = n
    /\ \A i \in 1..Len(l) : l[i].k \in Keys(t) /\ t[l[i].k].v = l[i].v /\ t[l[i].k].a = l[i].a
    /\ Cardinality({l[i].k : i \in 1..Len(l)}) = Len(l)

(* Is r the answer to operation o? *)
Answers(ts, o, r) ==
    LET t == ts[o.t]
        n == Cardinality(Keys(t))
    IN  CASE o.op \in {"ins", "ups"} ->
               /\ r.ex = (o.k \in Keys(t))
               /\ r.v = (IF o.op = "ins" /\ r.ex THEN t[o.k].v ELSE o.v)
               /\ IF r.ex THEN r.a = t[o.k].a ELSE r.a \notin Addresses(ts)
          [] o.op \in {"get", "set"} ->
               IF o.k \in Keys(t) THEN r.a = t[o.k].a /\ r.v = (IF o.op = "set" THEN o.v ELSE t[o.k].v)
               ELSE r.v = -1
          [] o.op = "ext" -> r.v = (IF o.k \in Keys(t) THEN t[o.k].v ELSE -1)
          [] o.op \in {"rmif", "each", "it"} -> Visits(t, r.l, n)
          [] o.op = "brk" -> Visits(t, r.l, IF n < o.v THEN n ELSE o.v)
          [] OTHER -> TRUE
=============================================================================
