------------------------------ MODULE NVecIndex ------------------------------
(* Design of the two level nested vector: index 2 -> index 1 -> data. *)
EXTENDS Integers, Sequences
CONSTANTS MaxTop
VARIABLES i2, i1, data, ghost
vars == <<i2, i1, data, ghost>>
Inner == {<< >>, <<1>>, <<1, 2>>}
Values == UNION {[1..n -> Inner] : n \in 0..2}
RECURSIVE Flat(_), Ends(_, _)
Flat(v) == IF v = << >> THEN << >> ELSE v[1] \o Flat(Tail(v))
Ends(v, from) == IF v = << >> THEN << >> ELSE <<from + Len(v[1])>> \o Ends(Tail(v), from + Len(v[1]))
Init == i2 = << >> /\ i1 = << >> /\ data = << >> /\ ghost = << >>
Add(v) == LET a == IF i2 = << >> THEN <<0>> ELSE i2  b == IF i1 = << >> THEN <<0>> ELSE i1 IN
          /\ Len(ghost) < MaxTop
          /\ i2' = Append(a, Len(b) + Len(v) - 1)
          /\ i1' = b \o Ends(v, Len(data))
          /\ data' = data \o Flat(v)
          /\ ghost' = Append(ghost, v)
Next == \E v \in Values : Add(v)
Spec == Init /\ [][Next]_vars
Bucket(k) == SubSeq(data, i1[k] + 1, i1[k + 1])
Abs == [t \in 1..(IF i2 = << >> THEN 0 ELSE Len(i2) - 1) |-> [j \in 1..(i2[t + 1] - i2[t]) |-> Bucket(i2[t] + j)]]
Refines == Abs = ghost
=============================================================================
