------------------------------ MODULE MC_Shared ------------------------------
(***************************************************************************)
(* Graphs of shared objects, written with a table from objects to keys and *)
(* restored with one from keys to objects.  The tables belong to the Tree  *)
(* and live on: storing uses a table of its own, loading empties both, the *)
(* table of restored objects serves all restorations from the document     *)
(* held.  An object is created wherever its value is met, and known by its *)
(* key before the references it holds are read, so the graph may be        *)
(* cyclic; a key without a value is looked up.  Restored objects are       *)
(* modified at will afterwards.                                            *)
(*                                                                         *)
(* For all graphs and histories of operations within the bounds, what is   *)
(* written and restored is the graph, and no object restored belongs to an *)
(* earlier restoration.  The pairs are printed and replayed.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS N,          \* objects
          MaxKids, MaxRoot, MaxOps, Sample

ListsOver(S, n) == UNION {[1..m -> S] : m \in 0..n}
Graphs == {[root |-> r, kids |-> k] : r \in ListsOver(1..N, MaxRoot),
            k \in [1..N -> ListsOver(1..N, MaxKids)]}
Ops == {"store", "load", "paste", "direct"}

VARIABLES g, ops, k,     \* the script, and how far it is
          held,          \* tokens of the document held, or "none"
          stored, shared, \* keys of objects; objects of keys (sequences of pairs)
          heap,          \* restored objects: [v, kids]
          last           \* what the last operation came to
vars == <<g, ops, k, held, stored, shared, heap, last>>

Lookup(t, x) == IF \E i \in DOMAIN t : t[i][1] = x THEN (LET i == CHOOSE i \in DOMAIN t : t[i][1] = x /\ \A j \in DOMAIN t : t[j][1] = x => j <= i IN t[i][2]) ELSE -1

(* [key, new, v, n]: a reference, the object's value and number of references within, if it is new *)
RECURSIVE Write(_, _, _)
Write(todo, tab, out) ==
    IF todo = <<>> THEN [tab |-> tab, out |-> out]
    ELSE LET x == Head(todo)
             key == Lookup(tab, x)
         IN  IF key >= 0 THEN Write(Tail(todo), tab, Append(out, [key |-> key, new |-> FALSE, v |-> 0, n |-> 0]))
             ELSE Write(g.kids[x] \o Tail(todo), Append(tab, <<x, Len(tab)>>), Append(out, [key |-> Len(tab), new |-> TRUE, v |-> x, n |-> Len(g.kids[x])]))

(* reads n references from position p: [ids, p, tab, heap] *)
RECURSIVE Read(_, _, _, _, _)
Read(s, n, p, tab, hp) ==
    IF n = 0 THEN [ids |-> <<>>, p |-> p, tab |-> tab, heap |-> hp]
    ELSE LET t == s[p] IN
         IF ~t.new THEN LET r == Read(s, n - 1, p + 1, tab, hp) IN [r EXCEPT !.ids = <<Lookup(tab, t.key)>> \o @]
         ELSE LET id == Len(hp) + 1      \* known by its key before what it holds is read
                  in == Read(s, t.n, p + 1, Append(tab, <<t.key, id>>), Append(hp, [v |-> t.v, kids |-> <<>>]))
                  r == Read(s, n - 1, in.p, in.tab, [in.heap EXCEPT ![id].kids = in.ids])
              IN  [r EXCEPT !.ids = <<id>> \o @]

RECURSIVE Tokens(_, _, _, _)
Tokens(hp, todo, seen, out) ==
    IF todo = <<>> THEN out
    ELSE LET x == Head(todo)
             is == {i \in DOMAIN seen : seen[i] = x}
         IN  IF is # {} THEN Tokens(hp, Tail(todo), seen, Append(out, <<0, CHOOSE i \in is : TRUE>>))
             ELSE Tokens(hp, hp[x].kids \o Tail(todo), Append(seen, x), Append(out, <<1, hp[x].v, Len(hp[x].kids)>>))
Truth == Tokens([i \in 1..N |-> [v |-> i, kids |-> g.kids[i]]], g.root, <<>>, <<>>)
RECURSIVE Reach(_, _)
Reach(hp, S) == LET T == S \cup UNION {{hp[x].kids[j] : j \in DOMAIN hp[x].kids} : x \in S} IN IF T = S THEN S ELSE Reach(hp, T)
Members(s) == {s[i] : i \in DOMAIN s}
Spoil(hp, S) == [i \in DOMAIN hp |-> IF i \in S THEN [hp[i] EXCEPT !.v = 99] ELSE hp[i]]

Good(ops_) == \A i \in DOMAIN ops_ : ops_[i] = "paste" => \E j \in 1..(i - 1) : ops_[j] = "load" /\ \A q \in (j + 1)..(i - 1) : ops_[q] # "direct"
Init == /\ g \in Graphs /\ ops \in {o \in ListsOver(Ops, MaxOps) : Good(o)}
        /\ k = 0 /\ held = <<>> /\ stored = <<>> /\ shared = <<>> /\ heap = <<>>
        /\ last = [ok |-> TRUE, fresh |-> TRUE]
Is(o) == k < Len(ops) /\ ops[k + 1] = o /\ k' = k + 1 /\ UNCHANGED <<g, ops>>

Restored(s, tab) ==
    LET r == Read(s, Len(g.root), 1, tab, heap)
        mine == Reach(r.heap, Members(r.ids))
    IN  /\ last' = [ok |-> Tokens(r.heap, r.ids, <<>>, <<>>) = Truth, fresh |-> \A x \in mine : x > Len(heap)]
        /\ heap' = Spoil(r.heap, mine) /\ shared' = r.tab
Store == /\ Is("store")
         /\ LET w == Write(g.root, <<>>, <<>>).out
                r == Read(w, Len(g.root), 1, <<>>, <<>>)
            IN  last' = [ok |-> Tokens(r.heap, r.ids, <<>>, <<>>) = Truth, fresh |-> TRUE]
         /\ UNCHANGED <<held, stored, shared, heap>>
Load == /\ Is("load")
        /\ LET w == Write(g.root, <<>>, <<>>) IN held' = w.out /\ stored' = w.tab
        /\ shared' = <<>> /\ last' = [ok |-> TRUE, fresh |-> TRUE] /\ UNCHANGED heap
Paste == /\ Is("paste") /\ Restored(held, shared) /\ UNCHANGED <<held, stored>>
Direct == /\ Is("direct") /\ Restored(Write(g.root, <<>>, <<>>).out, <<>>)
          /\ held' = <<>> /\ stored' = <<>>
Next == Store \/ Load \/ Paste \/ Direct
Spec == Init /\ [][Next]_vars

Right == last.ok
Fresh == last.fresh
Emit == k > 0 \/ ops = <<>> \/ (Sample # 1 /\ RandomElement(1..Sample) # 1) \/ PrintT("SCRIPT " \o ToJson([root |-> g.root, kids |-> g.kids, ops |-> ops]))
=============================================================================
