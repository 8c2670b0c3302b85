------------------------------ MODULE MMapSlots ------------------------------
(* Design: every bucket owns a range of one data array whose capacity is a power
   of two; ranges given up are kept in free lists by capacity and reused.
   Checked: ranges of live buckets and free ranges never overlap, and what is
   read through the index equals the abstract contents. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NK, MaxSize, MaxData
VARIABLES idx, data, free, ghost     \* ghost: number of elements of every bucket; element p of bucket k is 10 * k + p
vars == <<idx, data, free, ghost>>
Caps == {1, 2, 4}
Pow2(n) == CHOOSE c \in Caps : c >= n /\ \A d \in Caps : d >= n => d >= c
Keys == 1..NK
Init == /\ idx = [k \in Keys |-> [b |-> 0, s |-> 0, c |-> 0]] /\ data = << >> /\ free = [c \in Caps |-> << >>]
        /\ ghost = [k \in Keys |-> 0]
Pad(n) == [k \in 1..n |-> 0]
Copy(d, from, to, n) == [p \in 1..Len(d) |-> IF p > to /\ p <= to + n THEN d[from + (p - to)] ELSE d[p]]
Release(f, e) == IF e.c = 0 THEN f ELSE [f EXCEPT ![e.c] = Append(@, e.b)]
\* the index entry, data and free lists after bucket k got capacity for n elements
Grow(k, n) ==
  LET e == idx[k] nc == Pow2(n) IN
  IF n <= e.c THEN [e |-> e, d |-> data, f |-> free]
  ELSE IF free[nc] # << >>
  THEN LET l == free[nc] b == l[Len(l)] f0 == [free EXCEPT ![nc] = SubSeq(l, 1, Len(l) - 1)] IN
       [e |-> [b |-> b, s |-> e.s, c |-> nc], d |-> IF e.c = 0 THEN data ELSE Copy(data, e.b, b, e.s), f |-> Release(f0, e)]
  ELSE IF e.b + e.c = Len(data)
  THEN [e |-> [b |-> e.b, s |-> e.s, c |-> nc], d |-> data \o Pad(nc - e.c), f |-> free]
  ELSE LET nb == Len(data) IN
       [e |-> [b |-> nb, s |-> e.s, c |-> nc], d |-> Copy(data \o Pad(nc), e.b, nb, e.s), f |-> Release(free, e)]
Push(k) == /\ idx[k].s < MaxSize
           /\ LET g == Grow(k, idx[k].s + 1) IN
              /\ idx' = [idx EXCEPT ![k] = [g.e EXCEPT !.s = @ + 1]]
              /\ data' = [g.d EXCEPT ![g.e.b + g.e.s + 1] = 10 * k + ghost[k] + 1]
              /\ free' = g.f
           /\ ghost' = [ghost EXCEPT ![k] = @ + 1]
Reserve(k, n) == /\ n <= MaxSize /\ n > 0 /\ LET g == Grow(k, n) IN idx' = [idx EXCEPT ![k] = g.e] /\ data' = g.d /\ free' = g.f
                 /\ UNCHANGED ghost
EraseKey(k) == /\ free' = Release(free, idx[k]) /\ idx' = [idx EXCEPT ![k] = [b |-> @.b, s |-> IF @.c = 0 THEN @.s ELSE 0, c |-> 0]]
               /\ ghost' = [ghost EXCEPT ![k] = 0] /\ UNCHANGED data
Pop(k) == /\ idx[k].s > 0 /\ idx' = [idx EXCEPT ![k].s = @ - 1] /\ ghost' = [ghost EXCEPT ![k] = @ - 1]
          /\ UNCHANGED <<data, free>>
Next == \E k \in Keys : Push(k) \/ EraseKey(k) \/ Pop(k) \/ \E n \in 1..MaxSize : Reserve(k, n)
Spec == Init /\ [][Next]_vars
Bound == Len(data) <= MaxData
Refines == \A k \in Keys : SubSeq(data, idx[k].b + 1, idx[k].b + idx[k].s) = [p \in 1..ghost[k] |-> 10 * k + p]
Live == {<<idx[k].b, idx[k].c>> : k \in {j \in Keys : idx[j].c > 0}}
LiveCount == Cardinality({j \in Keys : idx[j].c > 0})
FreeSeq(c) == {<<free[c][q], c>> : q \in 1..Len(free[c])}
Free == UNION {FreeSeq(c) : c \in Caps}
FreeCount == Len(free[1]) + Len(free[2]) + Len(free[4])
Disjoint == /\ Cardinality(Live \cup Free) = LiveCount + FreeCount
            /\ \A a \in Live \cup Free, b \in Live \cup Free : a # b => a[1] + a[2] <= b[1] \/ b[1] + b[2] <= a[1]
            /\ \A a \in Live \cup Free : a[1] + a[2] <= Len(data)
Fits == \A k \in Keys : idx[k].s <= idx[k].c
=============================================================================
