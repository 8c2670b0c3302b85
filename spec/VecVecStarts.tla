---------------------------- MODULE VecVecStarts ----------------------------
(* Design: one flat data sequence and bucket start positions (one more than there
   are buckets, or none at all).  Checked to refine a sequence of sequences. *)
EXTENDS Integers, Sequences
CONSTANTS NV, MaxB, MaxLen
VARIABLES data, starts, ghost
vars == <<data, starts, ghost>>
Vals == 1..NV
NB == IF starts = << >> THEN 0 ELSE Len(starts) - 1
Bucket(b) == SubSeq(data, starts[b] + 1, starts[b + 1])
Abs == [b \in 1..NB |-> Bucket(b)]
InsertAt(q, p, e) == SubSeq(q, 1, p) \o e \o SubSeq(q, p + 1, Len(q))
Rep(n, x) == [k \in 1..n |-> x]
Init == data = << >> /\ starts = << >> /\ ghost = << >>
S0 == IF starts = << >> THEN <<0>> ELSE starts
Emplace(q) == /\ data' = data \o q /\ starts' = Append(S0, Len(data) + Len(q)) /\ ghost' = Append(ghost, q)
Grow(b, q) == /\ b <= NB /\ data' = InsertAt(data, starts[b + 1], q)
              /\ starts' = [k \in 1..Len(starts) |-> IF k > b THEN starts[k] + Len(q) ELSE starts[k]]
              /\ ghost' = [ghost EXCEPT ![b] = @ \o q]
Resize(n) == /\ starts' = [k \in 1..(n + 1) |-> IF k <= Len(starts) THEN starts[k] ELSE Len(data)]
             /\ data' = SubSeq(data, 1, starts'[n + 1])
             /\ ghost' = [k \in 1..n |-> IF k <= Len(ghost) THEN ghost[k] ELSE << >>]
Clear == data' = << >> /\ starts' = << >> /\ ghost' = << >>
Small(g) == Len(g) <= MaxB /\ \A k \in 1..Len(g) : Len(g[k]) <= MaxLen
Next == /\ \/ \E x \in Vals, n \in 0..MaxLen : Emplace(Rep(n, x)) \/ \E b \in 1..MaxB : Grow(b, Rep(n, x))
           \/ \E n \in 0..MaxB : Resize(n)
           \/ Clear
        /\ Small(ghost')
Spec == Init /\ [][Next]_vars
Refines == Abs = ghost
NoSlack == starts # << >> => starts[Len(starts)] = Len(data) /\ starts[1] = 0
=============================================================================
