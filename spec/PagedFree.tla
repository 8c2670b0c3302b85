------------------------------ MODULE PagedFree ------------------------------
(* Design: buckets own one page of power-of-two capacity; a freed page is linked
   into the free list of its capacity, the link being stored in the page itself. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxPages, MaxSize, MaxData
VARIABLES pages, data, head, ghost     \* ghost: <<id, size>> of every bucket; element p of bucket id is 10 * id + p
vars == <<pages, data, head, ghost>>
Caps == {2, 4}
Nil == -1
Cap(n) == IF n <= 2 THEN 2 ELSE 4
Ids == 1..(MaxPages + 1)
Unused == CHOOSE i \in Ids : \A b \in 1..Len(ghost) : ghost[b][1] # i
Init == pages = << >> /\ data = << >> /\ head = [c \in Caps |-> Nil] /\ ghost = << >>
\* pop or extend
Alloc(n, d, h) == LET c == Cap(n) IN
  IF h[c] # Nil THEN [p |-> [s |-> n, c |-> c, at |-> h[c]], d |-> d, h |-> [h EXCEPT ![c] = d[h[c] + 1]]]
  ELSE [p |-> [s |-> n, c |-> c, at |-> Len(d)], d |-> d \o [k \in 1..c |-> 0], h |-> h]
FreeP(p, d, h) == IF p.c = 0 THEN [d |-> d, h |-> h]
                  ELSE [d |-> [d EXCEPT ![p.at + 1] = h[p.c]], h |-> [h EXCEPT ![p.c] = p.at]]
Put(d, at, id, n) == [k \in 1..Len(d) |-> IF k > at /\ k <= at + n THEN 10 * id + (k - at) ELSE d[k]]
CopyD(d, from, to, n) == [k \in 1..Len(d) |-> IF k > to /\ k <= to + n THEN d[from + (k - to)] ELSE d[k]]
Emplace(n) == /\ Len(pages) < MaxPages
              /\ LET a == Alloc(n, data, head) id == Unused IN
                 /\ pages' = Append(pages, a.p) /\ data' = Put(a.d, a.p.at, id, n) /\ head' = a.h /\ ghost' = Append(ghost, <<id, n>>)
Blank == /\ Len(pages) < MaxPages /\ pages' = Append(pages, [s |-> 0, c |-> 0, at |-> 0]) /\ ghost' = Append(ghost, <<Unused, 0>>) /\ UNCHANGED <<data, head>>
\* push of one element to bucket b; the old page is copied, then freed
Push(b) == LET p == pages[b] n == p.s + 1 id == ghost[b][1] IN
  /\ n <= MaxSize
  /\ IF n <= p.c
     THEN pages' = [pages EXCEPT ![b].s = n] /\ data' = [data EXCEPT ![p.at + n] = 10 * id + n] /\ UNCHANGED head
     ELSE LET a == Alloc(n, data, head) d1 == CopyD(a.d, p.at, a.p.at, p.s) f == FreeP(p, d1, a.h) IN
          pages' = [pages EXCEPT ![b] = a.p] /\ data' = [f.d EXCEPT ![a.p.at + n] = 10 * id + n] /\ head' = f.h
  /\ ghost' = [ghost EXCEPT ![b][2] = n]
Shrink == /\ pages # << >>
          /\ LET p == pages[Len(pages)] f == FreeP(p, data, head) IN
             pages' = SubSeq(pages, 1, Len(pages) - 1) /\ data' = f.d /\ head' = f.h /\ ghost' = SubSeq(ghost, 1, Len(ghost) - 1)
Clear == pages' = << >> /\ data' = << >> /\ head' = [c \in Caps |-> Nil] /\ ghost' = << >>
Next == (\E n \in 0..MaxSize : Emplace(n)) \/ Blank \/ (\E b \in 1..Len(pages) : Push(b)) \/ Shrink \/ Clear
Spec == Init /\ [][Next]_vars
Bound == Len(data) <= MaxData
Refines == /\ Len(pages) = Len(ghost)
           /\ \A b \in 1..Len(pages) : SubSeq(data, pages[b].at + 1, pages[b].at + pages[b].s) = [k \in 1..ghost[b][2] |-> 10 * ghost[b][1] + k]
RECURSIVE Chain(_, _)
Chain(at, fuel) == IF at = Nil \/ fuel = 0 THEN << >> ELSE <<at>> \o Chain(data[at + 1], fuel - 1)
FreeRanges == UNION {{<<Chain(head[c], MaxData)[k], c>> : k \in 1..Len(Chain(head[c], MaxData))} : c \in Caps}
FreeCount == Len(Chain(head[2], MaxData)) + Len(Chain(head[4], MaxData))
Live == {<<pages[b].at, pages[b].c>> : b \in {x \in 1..Len(pages) : pages[x].c > 0}}
LiveCount == Cardinality({x \in 1..Len(pages) : pages[x].c > 0})
Disjoint == /\ Cardinality(Live \cup FreeRanges) = LiveCount + FreeCount
            /\ \A a \in Live \cup FreeRanges, b \in Live \cup FreeRanges : a # b => a[1] + a[2] <= b[1] \/ b[1] + b[2] <= a[1]
            /\ \A a \in Live \cup FreeRanges : a[1] >= 0 /\ a[1] + a[2] <= Len(data)
=============================================================================
