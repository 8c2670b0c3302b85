-------------------------------- MODULE MMap --------------------------------
(* Mutable multimap: a sequence of buckets addressed by key, each a sequence of
   integers of at most MaxBucket elements; asking for more throws and changes
   nothing.  Every step records <<result, contents, number of elements>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NV, MaxKeys, MaxLen, MaxBucket, Depth, Phase
Vals == 1..NV
VARIABLES m, o, hist, done       \* o: a second container
vars == <<m, o, hist, done>>

Rep(n, x) == [k \in 1..n |-> x]
Min(a, b) == IF a < b THEN a ELSE b
InsertAt(q, p, e) == SubSeq(q, 1, p) \o e \o SubSeq(q, p + 1, Len(q))
RemoveRange(q, a, b) == SubSeq(q, 1, a) \o SubSeq(q, b + 1, Len(q))
RECURSIVE Total(_)
Total(q) == IF q = << >> THEN 0 ELSE Len(q[1]) + Total(Tail(q))
Init == m = << >> /\ o = << >> /\ hist = << >> /\ done = FALSE
Log(op, args, res) == hist' = Append(hist, <<op, args, <<res, m', Total(m'), Len(o')>>>>) /\ UNCHANGED done
Same == UNCHANGED <<m, o>>
Upd(q) == m' = q /\ UNCHANGED o
K(k) == k < Len(m)
Grown(k) == [j \in 1..(IF k < Len(m) THEN Len(m) ELSE k + 1) |-> IF j <= Len(m) THEN m[j] ELSE << >>]
\* bucket k becomes q; too many elements: throw
SetB(k, q, op, args, res) ==
  IF Len(q) > MaxBucket THEN Same /\ Log(op, args, "throw")
  ELSE Upd([m EXCEPT ![k + 1] = q]) /\ Log(op, args, res)

Touch(op, k) == Upd(Grown(k)) /\ Log(op, <<k>>, Len(Grown(k)[k + 1]))
NewBucket == Upd(Append(m, << >>)) /\ Log("new_bucket", << >>, Len(m))
Push(op, k, x) == K(k) /\ SetB(k, Append(m[k + 1], x), op, <<k, x>>, x)
PushOwn(op, k, j, p) == K(k) /\ K(j) /\ p < Len(m[j + 1]) /\ SetB(k, Append(m[k + 1], m[j + 1][p + 1]), op, <<k, j, p>>, m[j + 1][p + 1])
Insert(op, k, p, x) == K(k) /\ p <= Len(m[k + 1]) /\ SetB(k, InsertAt(m[k + 1], p, <<x>>), op, <<k, p, x>>, p)
InsertOwn(k, p, e) == K(k) /\ p <= Len(m[k + 1]) /\ e < Len(m[k + 1]) /\ SetB(k, InsertAt(m[k + 1], p, <<m[k + 1][e + 1]>>), "insert_own", <<k, p, e>>, p)
ReserveB(k, n) == K(k) /\ Same /\ Log("reserve_bucket", <<k, n>>, IF n > MaxBucket THEN "throw" ELSE 0)
Resize(k, n) == K(k) /\ SetB(k, [j \in 1..n |-> IF j <= Len(m[k + 1]) THEN m[k + 1][j] ELSE 0], "resize", <<k, n>>, n)
ResizeVal(k, n, x) == K(k) /\ SetB(k, [j \in 1..n |-> IF j <= Len(m[k + 1]) THEN m[k + 1][j] ELSE x], "resize_val", <<k, n, x>>, n)
Pop(k) == K(k) /\ SetB(k, IF m[k + 1] = << >> THEN << >> ELSE SubSeq(m[k + 1], 1, Len(m[k + 1]) - 1), "pop", <<k>>, 0)
ClearB(k) == K(k) /\ SetB(k, << >>, "clear_bucket", <<k>>, 0)
Erase(k, p) == K(k) /\ p < Len(m[k + 1]) /\ SetB(k, RemoveRange(m[k + 1], p, p + 1), "erase", <<k, p>>, p)
EraseRange(k, a, b) == K(k) /\ a <= b /\ b <= Len(m[k + 1]) /\ SetB(k, RemoveRange(m[k + 1], a, b), "erase_range", <<k, a, b>>, a)
EraseKey(k) == (IF K(k) THEN Upd([m EXCEPT ![k + 1] = << >>]) ELSE Same) /\ Log("erase_key", <<k>>, 0)
Clear == Upd(<< >>) /\ Log("clear", << >>, 0)
Reserve(a, b) == Same /\ Log("reserve", <<a, b>>, 0)
Write(op, k, p, x) == K(k) /\ p < Len(m[k + 1]) /\ SetB(k, [m[k + 1] EXCEPT ![p + 1] = x], op, <<k, p, x>>, x)
At(k) == Same /\ Log("at", <<k>>, IF K(k) THEN m[k + 1] ELSE "throw")
At2(k, p) == K(k) /\ Same /\ Log("at2", <<k, p>>, IF p < Len(m[k + 1]) THEN m[k + 1][p + 1] ELSE "throw")
Ends == m # << >> /\ Same /\ Log("ends", << >>, <<m[1], m[Len(m)]>>)
Walk(a, b) == a <= b /\ K(b) /\ Same /\ Log("walk", <<a, b>>, <<m[a + 1], m[b + 1]>>)
CopyAssign == m' = o /\ UNCHANGED o /\ Log("copy_assign", << >>, 0)
CopyTo == o' = m /\ UNCHANGED m /\ Log("copy_to", << >>, 0)
Swap == m' = o /\ o' = m /\ Log("swap", << >>, 0)
MoveConstruct == Same /\ Log("move_construct", << >>, 0)
Reload == Same /\ Log("reload", << >>, 0)
Finish == /\ Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<m, o, hist>>

EnumNext == (Len(hist) < Depth /\ Len(m) <= MaxKeys /\
     \/ \E k \in 0..1 : Push("push", k, k + 1) \/ Resize(k, 3) \/ Resize(k, 0) \/ EraseKey(k) \/ ClearB(k) \/ Erase(k, 0)
     \/ Touch("touch", 1) \/ NewBucket \/ PushOwn("push_own", 0, 1, 0) \/ Insert("insert", 0, 0, 2) \/ InsertOwn(1, 0, 0) \/ ReserveB(0, 2)
     \/ Clear \/ Reload \/ EraseRange(0, 0, 2)) \/ Finish
EnumSpec == Init /\ [][EnumNext]_vars

Pick(S) == RandomElement(S)
Growing == (Len(hist) \div Phase) % 2 = 0
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, x \in {Pick(Vals)}, n \in {Pick(0..4)}, u \in {Pick(1..6)}, w \in {Pick(0..9)} :
       \E k \in {IF m = << >> THEN 0 ELSE Pick(0..(Len(m) - 1))}, j \in {IF m = << >> THEN 0 ELSE Pick(0..(Len(m) - 1))} :
       LET empty == m = << >>
           lk == IF empty THEN 0 ELSE Len(m[k + 1])
           lj == IF empty THEN 0 ELSE Len(m[j + 1])
           p == IF lk = 0 THEN 0 ELSE w % lk
           q == IF lj = 0 THEN 0 ELSE w % lj
           hi == IF lk = 0 THEN 0 ELSE Min(lk, p + n)
           room == lk < MaxLen IN
       CASE empty /\ r <= 60 -> (IF u <= 2 THEN NewBucket ELSE Touch(IF u = 3 THEN "get_or_create" ELSE "touch", n))
         [] ~Growing /\ r <= 30 /\ ~empty -> (CASE u = 1 -> EraseKey(k) [] u = 2 -> ClearB(k) [] u = 3 -> EraseRange(k, p, hi) [] u = 4 -> Resize(k, p) [] u = 5 -> Pop(k)
                                                [] OTHER -> IF lk > 0 THEN Erase(k, p) ELSE EraseKey(k))
         [] r <= 22 /\ ~empty /\ room -> Push(IF u <= 3 THEN "push" ELSE "emplace", k, x)
         [] r <= 28 /\ ~empty /\ room /\ lj > 0 -> PushOwn(IF u <= 3 THEN "push_own" ELSE "emplace_own", k, j, q)
         [] r <= 33 /\ Len(m) < MaxKeys -> (IF u = 1 THEN NewBucket ELSE Touch(IF u <= 3 THEN "get_or_create" ELSE "touch", Min(MaxKeys - 1, Len(m) + n)))
         [] r <= 36 /\ ~empty -> Touch(IF u <= 3 THEN "get_or_create" ELSE "touch", k)
         [] r <= 42 /\ ~empty /\ room -> Insert(IF u <= 3 THEN "insert" ELSE "insert_move", k, IF u = 2 THEN lk ELSE p, x)
         [] r <= 45 /\ ~empty /\ room /\ lk > 0 -> InsertOwn(k, IF u = 2 THEN lk ELSE p, w % lk)
         [] r <= 49 /\ ~empty -> ReserveB(k, IF u = 1 THEN MaxBucket + n ELSE lk + n)
         [] r <= 54 /\ ~empty -> Resize(k, IF u = 1 THEN p ELSE Min(MaxLen, lk + n))
         [] r <= 58 /\ ~empty -> ResizeVal(k, IF u = 1 THEN p ELSE Min(MaxLen, lk + n), x)
         [] r <= 61 /\ ~empty -> Pop(k)
         [] r <= 63 /\ ~empty -> ClearB(k)
         [] r <= 67 /\ lk > 0 -> Erase(k, p)
         [] r <= 70 /\ ~empty -> EraseRange(k, p, hi)
         [] r <= 74 -> EraseKey(IF u = 1 THEN Len(m) + n ELSE k)
         [] r <= 75 -> (IF u = 1 THEN Clear ELSE Reserve(n, 4 * n))
         [] r <= 80 /\ lk > 0 -> Write(<<"write", "write_at", "write_front", "write_back">>[(u % 4) + 1], k, CASE u % 4 = 2 -> 0 [] u % 4 = 3 -> lk - 1 [] OTHER -> p, x)
         [] r <= 83 -> At(IF u <= 2 THEN Len(m) + n ELSE k)
         [] r <= 86 /\ ~empty -> At2(k, IF u <= 2 THEN lk + n ELSE p)
         [] r <= 88 /\ ~empty -> Ends
         [] r <= 91 /\ ~empty -> Walk(Min(k, j), IF k > j THEN k ELSE j)
         [] r <= 93 -> CopyTo
         [] r <= 95 -> CopyAssign
         [] r <= 96 -> Swap
         [] r <= 97 -> MoveConstruct
         [] OTHER -> Reload
SimSpec == Init /\ [][SimNext]_vars
(* only the addressed bucket changes *)
Frame == [][(Len(hist') > Len(hist)) => LET e == hist'[Len(hist')] IN
   e[1] \in {"push", "resize", "erase_key", "clear_bucket", "erase", "insert", "push_own", "insert_own", "erase_range"} =>
      Len(m') = Len(m) /\ \A k \in 1..Len(m) : k # e[2][1] + 1 => m'[k] = m[k]]_vars
=============================================================================
