------------------------------ MODULE MC_Table ------------------------------
(***************************************************************************)
(* Design of the hash table: chains of entries in buckets, the memory of   *)
(* removed entries is used again, the number of buckets is doubled when a  *)
(* limit is reached and the entries, which stay where they are, are moved  *)
(* to their new buckets.  For every history of N operations the table is   *)
(* the map that TableApi describes.  The histories are replayed in the     *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS TableApi, Json
CONSTANTS N, Slack,      \* entries to be inserted before the table grows
          Sample

VARIABLES ts, h, next, hist
vars == <<ts, h, next, hist>>
(* h: tables, each: cap, limit, b: buckets (chains of addresses), cache: free addresses, at: address -> [k, v] *)

Ks == 0..2
Hash(k) == IF k = 2 THEN 2 ELSE 0          \* 0 and 1 collide always, 2 in small tables
Bucket(t, k) == (Hash(k) % t.cap) + 1
New == [cap |-> 1, limit |-> 0, b |-> <<<<>>>>, cache |-> <<>>, at |-> <<>>]
Init == ts = <<Empty, Empty>> /\ h = <<New, New>> /\ next = 1 /\ hist = <<>>

Count(t) == Cardinality(DOMAIN t.at)
Chain(t, k) == t.b[Bucket(t, k)]
At(t, k) == LET c == Chain(t, k)
                is == {i \in 1..Len(c) : t.at[c[i]].k = k}
            IN  IF is = {} THEN 0 ELSE c[CHOOSE i \in is : TRUE]

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Grown(t) ==
    IF t.limit = 0 THEN [t EXCEPT !.limit = Slack, !.b = [i \in 1..t.cap |-> <<>>]]
    ELSE LET cap == t.cap * 2
             all == Flat(t.b)
             part(i) == SelectSeq(all, LAMBDA a : (Hash(t.at[a].k) % cap) + 1 = i)
         IN  [t EXCEPT !.cap = cap, !.limit = IF Count(t) + Slack > cap THEN Count(t) + Slack ELSE cap, !.b = [i \in 1..cap |-> part(i)]]

Step(o, h2, n, a) ==
    /\ Len(hist) < N
    /\ ts' = Apply(ts, o, a) /\ hist' = Append(hist, o) /\ h' = h2 /\ next' = n

Put(i, k, op) ==
    LET t == IF Count(h[i]) >= h[i].limit THEN Grown(h[i]) ELSE h[i]
        o == [op |-> op, t |-> i, k |-> k, v |-> Len(hist) + 1]
        a == At(t, k)
        fresh == IF t.cache # <<>> THEN t.cache[Len(t.cache)] ELSE next
    IN  IF a # 0 THEN Step(o, [h EXCEPT ![i] = IF op = "ups" THEN [t EXCEPT !.at[a].v = o.v] ELSE t], next, a)
        ELSE Step(o, [h EXCEPT ![i] = [t EXCEPT !.b[Bucket(t, k)] = Append(@, fresh),
                                                !.at = (fresh :> [k |-> k, v |-> o.v]) @@ @,
                                                !.cache = IF @ # <<>> THEN SubSeq(@, 1, Len(@) - 1) ELSE @]],
                  IF t.cache # <<>> THEN next ELSE next + 1, fresh)
Taken(t, a) == [t EXCEPT !.b = [j \in 1..Len(t.b) |-> SelectSeq(t.b[j], LAMBDA x : x # a)],
                         !.at = [x \in DOMAIN t.at \ {a} |-> t.at[x]], !.cache = Append(@, a)]
Remove(i, k, op) ==
    LET t == h[i]
        a == IF Count(t) = 0 THEN 0 ELSE At(t, k)
    IN  Step([op |-> op, t |-> i, k |-> k], [h EXCEPT ![i] = IF a = 0 THEN t ELSE Taken(t, a)], next, 0)
RECURSIVE TakeAll(_, _)
TakeAll(x, S) == IF S = {} THEN x ELSE LET a == CHOOSE y \in S : TRUE IN TakeAll(Taken(x, a), S \ {a})
RemoveIf(i, K) ==
    LET t == h[i]
        as == {a \in DOMAIN t.at : t.at[a].k \in {K[j] : j \in 1..Len(K)}}
    IN  Step([op |-> "rmif", t |-> i, ks |-> K], [h EXCEPT ![i] = TakeAll(t, as)], next, 0)
Clear(i) == Step([op |-> "clr", t |-> i], IF Count(h[i]) = 0 THEN h
                 ELSE [h EXCEPT ![i] = [@ EXCEPT !.limit = 0, !.cache = <<>>, !.at = <<>>, !.b = [j \in 1..Len(@) |-> <<>>]]], next, 0)
Move(i) == Step([op |-> "mov", t |-> i, u |-> 3 - i], [h EXCEPT ![i] = h[3 - i], ![3 - i] = [New EXCEPT !.cap = h[3 - i].cap, !.b = [j \in 1..h[3 - i].cap |-> <<>>]]], next, 0)

Next == \E i \in 1..2 : (i = 1 \/ hist # <<>>) /\
            (\/ \E k \in Ks : Put(i, k, "ins") \/ Put(i, k, "ups") \/ Remove(i, k, "rem")
             \/ Remove(i, 0, "ext") \/ RemoveIf(i, <<0, 2>>) \/ RemoveIf(i, <<1>>) \/ Clear(i) \/ Move(i))
Spec == Init /\ [][Next]_vars

IsMap == \A i \in 1..2 : LET t == h[i] IN
    /\ \A k \in Ks : IF k \in Keys(ts[i]) THEN LET a == At(t, k) IN a # 0 /\ ts[i][k] = [v |-> t.at[a].v, a |-> a]
                     ELSE Count(t) = 0 \/ At(t, k) = 0
    /\ Count(t) = Cardinality(Keys(ts[i]))
    /\ Len(t.b) = t.cap
    /\ LET all == Flat(t.b) \o t.cache IN Cardinality({all[j] : j \in 1..Len(all)}) = Len(all)
    /\ {Flat(t.b)[j] : j \in 1..Len(Flat(t.b))} = DOMAIN t.at
Apart == DOMAIN h[1].at \cap DOMAIN h[2].at = {}
Emit == Len(hist) < N \/ (Sample # 1 /\ RandomElement(1..Sample) # 1) \/ PrintT("SCRIPT " \o ToJson([ops |-> hist]))
=============================================================================
