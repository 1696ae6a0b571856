------------------------------- MODULE MC_Heap -------------------------------
(***************************************************************************)
(* Design of the heap: blocks are cut from the current segment; what is    *)
(* left of it when it is too small, and blocks that are returned, become   *)
(* free segments, the first of which that is large enough becomes the      *)
(* current one; otherwise memory is allocated, twice as much each time.    *)
(* Clearing makes the segments free that were allocated.  For every        *)
(* history of N operations live blocks, free segments and the rest of the  *)
(* current segment do not overlap, also when allocations fail.             *)
(* The histories are replayed in the implementation.                       *)
(***************************************************************************)
EXTENDS HeapApi, Json
CONSTANTS N, MaxCap, Sample

VARIABLES live, hp, next, hist
vars == <<live, hp, next, hist>>
(* hp: heaps: [cap, crr: <<>> or <<[d, left, size]>>, free: <<[d, size]>>, roots: <<[d, size]>>] *)

New == [cap |-> 1, crr |-> <<>>, free |-> <<>>, roots |-> <<>>]
Init == live = NoBlocks /\ hp = <<New, New>> /\ next = 0 /\ hist = <<>>
Pointer(s) == s.d + s.size - s.left
Fits(s, n, a) == s.size >= n + a - 1 \/ (s.size >= n /\ s.d % a = 0)
First(S) == CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE Doubled(_, _)
Doubled(c, n) == IF c < n /\ c < MaxCap THEN Doubled(c * 2, n) ELSE c
Max(x, y) == IF x > y THEN x ELSE y

(* memory comes with an alignment of 2 *)
Alloc(h, n, a, fail) ==
    LET rest == IF h.crr # <<>> /\ h.crr[1].left > 0 THEN Append(h.free, [d |-> Pointer(h.crr[1]), size |-> h.crr[1].left]) ELSE h.free
        fit == {i \in 1..Len(rest) : Fits(rest[i], n, a)}
        cap == LET c == IF h.cap * 2 < MaxCap THEN h.cap * 2 ELSE MaxCap IN IF n + a - 1 < MaxCap THEN Doubled(c, n + a - 1) ELSE c
        sz == Max(cap, n + a - 1)
    IN  IF fit # {} THEN LET i == First(fit)
                         IN  [h |-> [h EXCEPT !.free = SubSeq(rest, 1, i - 1) \o SubSeq(rest, i + 1, Len(rest)),
                                              !.crr = <<[d |-> rest[i].d, left |-> rest[i].size, size |-> rest[i].size]>>],
                              next |-> next, ok |-> TRUE]
        ELSE IF fail THEN [h |-> [h EXCEPT !.free = rest, !.crr = <<>>, !.cap = cap], next |-> next, ok |-> FALSE]
        ELSE [h |-> [h EXCEPT !.free = rest, !.cap = cap, !.crr = <<[d |-> next, left |-> sz, size |-> sz]>>,
                              !.roots = Append(@, [d |-> next, size |-> sz])],
              next |-> next + sz + 2 - (sz % 2), ok |-> TRUE]

Step(o, x, hp2, n) ==
    /\ Len(hist) < N
    /\ hp' = hp2 /\ next' = n /\ hist' = Append(hist, o)
    /\ live' = IF o.op = "get" /\ x = <<>> THEN live ELSE Apply(live, o, Len(hist) + 1, x)

Get(i, n, a, fail) ==
    LET o == [op |-> "get", h |-> i, n |-> n, y |-> a] @@ (IF fail THEN [f |-> 1] ELSE <<>>)
        r == IF hp[i].crr # <<>> /\ hp[i].crr[1].left >= n + a - 1 THEN [h |-> hp[i], next |-> next, ok |-> TRUE]
             ELSE Alloc(hp[i], n, a, fail)
        s == r.h.crr[1]
        p == Pointer(s)
        off == (a - (p % a)) % a
    IN  IF ~r.ok THEN Step(o, <<>>, [hp EXCEPT ![i] = r.h], r.next)
        ELSE /\ Assert(s.left >= n + off, <<"beyond the segment", o>>)
             /\ Step(o, [s |-> p + off, e |-> p + off + n], [hp EXCEPT ![i] = [r.h EXCEPT !.crr[1].left = @ - n - off]], r.next)
Put(b) == LET i == live[b].h
          IN  Step([op |-> "put", h |-> i, b |-> b], <<>>,
                   [hp EXCEPT ![i].free = Append(@, [d |-> live[b].s, size |-> live[b].e - live[b].s])], next)
Cut(b, n) == LET i == live[b].h
             IN  Step([op |-> "cut", h |-> i, b |-> b, n |-> n], [e |-> live[b].s + n],
                      [hp EXCEPT ![i].free = Append(@, [d |-> live[b].s + n, size |-> live[b].e - live[b].s - n])], next)
RECURSIVE Sorted(_)
Sorted(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET t == Sorted(SubSeq(s, 1, Len(s) - 1))
             x == s[Len(s)]
             bigger == {i \in 1..Len(t) : t[i].size >= x.size}
             i == IF bigger = {} THEN Len(t) + 1 ELSE First(bigger)
         IN  SubSeq(t, 1, i - 1) \o <<x>> \o SubSeq(t, i, Len(t))
Clear(i) == Step([op |-> "clr", h |-> i], <<>>, [hp EXCEPT ![i] = [@ EXCEPT !.crr = <<>>, !.free = Sorted(hp[i].roots)]], next)
Move(i) == Step([op |-> "mov", h |-> i, u |-> 3 - i], <<>>, [hp EXCEPT ![i] = hp[3 - i], ![3 - i] = [New EXCEPT !.cap = hp[3 - i].cap]], next)

Next == \/ \E i \in 1..2 : (i = 1 \/ hist # <<>>) /\
             (\/ \E n \in {0, 1, 3}, a \in {1, 4} : Get(i, n, a, FALSE)
              \/ Get(i, 3, 1, TRUE)
              \/ hist # <<>> /\ (Clear(i) \/ Move(i)))
        \/ \E b \in DOMAIN live : Put(b) \/ (live[b].e - live[b].s > 1 /\ Cut(b, 1))
Spec == Init /\ [][Next]_vars

(* what belongs to nobody but the heap or the holder of a block *)
Parts == {live[b] @@ [p |-> <<"b", b, 0>>] : b \in DOMAIN live}
         \cup UNION {{LET f == hp[i].free[j] IN [p |-> <<"f", i, j>>, s |-> f.d, e |-> f.d + f.size] : j \in 1..Len(hp[i].free)} : i \in 1..2}
         \cup {LET c == hp[i].crr[1] IN [p |-> <<"c", i, 0>>, s |-> Pointer(c), e |-> c.d + c.size] : i \in {j \in 1..2 : hp[j].crr # <<>>}}
Apart == LET P == Parts IN \A p, q \in P : p.p # q.p => ~Overlap(p, q)
Within == \A b \in DOMAIN live : \E j \in 1..Len(hp[live[b].h].roots) :
             LET r == hp[live[b].h].roots[j] IN live[b].s >= r.d /\ live[b].e <= r.d + r.size
Emit == Len(hist) < N \/ (Sample # 1 /\ RandomElement(1..Sample) # 1) \/ PrintT("SCRIPT " \o ToJson([ops |-> hist]))
=============================================================================
