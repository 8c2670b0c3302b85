------------------------------ MODULE VecLimit ------------------------------
(* Lengths of vectors whose size type is narrow: every length the size type can
   represent is usable.  Element k always holds the value the replayer derives
   from k; the specification only tracks the two lengths. *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Max, Depth
VARIABLES n, hist, done
vars == <<n, hist, done>>
Init == n = <<0, 0>> /\ hist = <<>> /\ done = FALSE
Log(op, args) == hist' = Append(hist, <<op, args, <<n'[1], n'[2], TRUE>>>>) /\ UNCHANGED done
Set(i, v) == v \in 0..Max /\ n' = [n EXCEPT ![i] = v]
Grow(op, i, k) == Set(i, n[i] + k) /\ Log(op, <<i, k>>)             \* push, emplace, insert_n, insert_range, insert_input
Pop(i, k) == Set(i, n[i] - k) /\ Log("pop", <<i, k>>)
To(op, i, v) == Set(i, v) /\ Log(op, <<i, v>>)                      \* resize, set, construct
Reserve(i, v) == v <= Max /\ UNCHANGED n /\ Log("reserve", <<i, v>>)
Copy(i) == n' = [n EXCEPT ![i] = n[3 - i]] /\ Log("copy", <<i>>)
Move(i) == n' = [j \in 1..2 |-> IF j = i THEN n[3 - i] ELSE 0] /\ Log("move", <<i>>)
Clear(i) == Set(i, 0) /\ Log("clear", <<i>>)
Near == {v \in {0, 1, 2, (Max + 1) \div 2 - 1, (Max + 1) \div 2, (Max + 1) \div 2 + 1, (Max + 1) \div 2 + 2, Max - 1, Max} : v >= 0}
Finish == Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<n, hist>>
Ks == 1..Max
Step == \E i \in {RandomElement(1..2)} : \E k \in {RandomElement(1..100)} : \E near \in {RandomElement(Near)} : \E any \in {RandomElement(0..Max)} :
        \E v \in {IF k % 2 = 0 THEN near ELSE any} : \E op \in {RandomElement({"push", "emplace", "insert_n", "insert_range", "insert_input"})} :
  CASE k <= 45 -> \E add \in {IF v > n[i] THEN v - n[i] ELSE IF n[i] < Max THEN 1 ELSE 0} : Grow(op, i, add)
    [] k <= 60 -> IF v < n[i] THEN Pop(i, n[i] - v) ELSE To("resize", i, v)
    [] k <= 72 -> To("resize", i, v)
    [] k <= 78 -> To("set", i, v)
    [] k <= 84 -> To("construct", i, v)
    [] k <= 90 -> Reserve(i, v)
    [] k <= 93 -> Copy(i)
    [] k <= 97 -> Move(i)
    [] OTHER -> Clear(i)
Spec == Init /\ [][(Len(hist) < Depth /\ Step) \/ Finish]_vars
InRange == \A i \in 1..2 : n[i] \in 0..Max
=============================================================================
