------------------------------- MODULE Paged -------------------------------
(* Paged vector of vectors: a sequence of buckets of integers, each of at most
   MaxPage elements (one page); asking for more throws and changes nothing.
   Every step records <<result, contents>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NV, MaxB, MaxLen, MaxPage, Depth, Phase
Vals == 1..NV
VARIABLES m, o, hist, done
vars == <<m, o, hist, done>>
Run(x, n) == [k \in 1..n |-> ((x + k - 2) % NV) + 1]
Min(a, b) == IF a < b THEN a ELSE b
InsertAt(q, p, e) == SubSeq(q, 1, p) \o e \o SubSeq(q, p + 1, Len(q))
Init == m = << >> /\ o = << >> /\ hist = << >> /\ done = FALSE
Log(op, args, res) == hist' = Append(hist, <<op, args, <<res, m', Len(o')>>>>) /\ UNCHANGED done
Same == UNCHANGED <<m, o>>
Upd(q) == m' = q /\ UNCHANGED o
K(k) == k < Len(m)
Emplace(op, q) == IF Len(q) > MaxPage THEN Same /\ Log(op, <<q>>, "throw") ELSE Upd(Append(m, q)) /\ Log(op, <<q>>, Len(m) + 1)
EmplaceEmpty == Upd(Append(m, << >>)) /\ Log("emplace_empty", << >>, Len(m) + 1)
EmplaceOwn(k) == K(k) /\ Upd(Append(m, m[k + 1])) /\ Log("emplace_own", <<k>>, Len(m) + 1)
TooLarge(op, n) == n > MaxPage /\ Same /\ Log(op, <<n>>, "throw")     \* a bucket of n elements
InsertBucket(k, q) == k <= Len(m) /\ (IF Len(q) > MaxPage THEN Same /\ Log("insert_bucket", <<k, q>>, "throw")
                      ELSE Upd(InsertAt(m, k, <<q>>)) /\ Log("insert_bucket", <<k, q>>, Len(m) + 1))
InsertOwn(k, j) == k <= Len(m) /\ K(j) /\ Upd(InsertAt(m, k, <<m[j + 1]>>)) /\ Log("insert_own_bucket", <<k, j>>, Len(m) + 1)
SetB(k, q, op, args, res) == IF Len(q) > MaxPage THEN Same /\ Log(op, args, "throw") ELSE Upd([m EXCEPT ![k + 1] = q]) /\ Log(op, args, res)
Push(k, x) == K(k) /\ SetB(k, Append(m[k + 1], x), "push", <<k, x>>, x)
PushOwn(k, j, p) == K(k) /\ K(j) /\ p < Len(m[j + 1]) /\ SetB(k, Append(m[k + 1], m[j + 1][p + 1]), "push_own", <<k, j, p>>, m[j + 1][p + 1])
Insert(k, p, x) == K(k) /\ p <= Len(m[k + 1]) /\ SetB(k, InsertAt(m[k + 1], p, <<x>>), "insert", <<k, p, x>>, p)
ResizeB(k, n, x) == K(k) /\ SetB(k, [j \in 1..n |-> IF j <= Len(m[k + 1]) THEN m[k + 1][j] ELSE x], "resize_bucket", <<k, n, x>>, n)
Resize(n) == Upd([k \in 1..n |-> IF k <= Len(m) THEN m[k] ELSE << >>]) /\ Log("resize", <<n>>, n)
Clear == Upd(<< >>) /\ Log("clear", << >>, 0)
Write(op, k, p, x) == K(k) /\ p < Len(m[k + 1]) /\ SetB(k, [m[k + 1] EXCEPT ![p + 1] = x], op, <<k, p, x>>, x)
At(k) == Same /\ Log("at", <<k>>, IF K(k) THEN m[k + 1] ELSE "throw")
At2(k, p) == K(k) /\ Same /\ Log("at2", <<k, p>>, IF p < Len(m[k + 1]) THEN m[k + 1][p + 1] ELSE "throw")
Ends == m # << >> /\ Same /\ Log("ends", << >>, <<m[1], m[Len(m)]>>)
Walk(a, b) == a <= b /\ K(b) /\ Same /\ Log("walk", <<a, b>>, <<m[a + 1], m[b + 1]>>)
CopyAssign == m' = o /\ UNCHANGED o /\ Log("copy_assign", << >>, 0)
CopyTo == o' = m /\ UNCHANGED m /\ Log("copy_to", << >>, 0)
Swap == m' = o /\ o' = m /\ Log("swap", << >>, 0)
Reload == Same /\ Log("reload", << >>, 0)
Finish == /\ Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<m, o, hist>>

EnumNext == (Len(hist) < Depth /\ Len(m) <= MaxB /\
    \/ Emplace("emplace", Run(1, 2)) \/ Emplace("emplace", Run(3, 3)) \/ EmplaceEmpty \/ Resize(0) \/ Resize(1) \/ Resize(2) \/ Clear \/ Reload
    \/ InsertBucket(0, Run(2, 1)) \/ PushOwn(0, 1, 0) \/ Insert(0, 1, 7) \/ EmplaceOwn(0) \/ InsertOwn(0, 1)
    \/ \E k \in 0..1 : Push(k, 5 + k) \/ ResizeB(k, 3, 8)) \/ Finish
EnumSpec == Init /\ [][EnumNext]_vars
Pick(S) == RandomElement(S)
Growing == (Len(hist) \div Phase) % 2 = 0
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, x \in {Pick(Vals)}, n \in {Pick(0..5)}, u \in {Pick(1..6)}, w \in {Pick(0..19)} :
       \E k \in {IF m = << >> THEN 0 ELSE Pick(0..(Len(m) - 1))}, j \in {IF m = << >> THEN 0 ELSE Pick(0..(Len(m) - 1))} :
       LET empty == m = << >>
           lk == IF empty THEN 0 ELSE Len(m[k + 1])
           lj == IF empty THEN 0 ELSE Len(m[j + 1])
           p == IF lk = 0 THEN 0 ELSE w % lk
           q == IF lj = 0 THEN 0 ELSE w % lj
           more == Len(m) < MaxB
           room == lk < MaxLen IN
       CASE empty /\ r <= 70 -> Emplace("emplace", Run(x, n))
         [] (~more \/ ~Growing) /\ r <= 25 -> (IF u <= 4 THEN Resize(k) ELSE IF u = 5 /\ ~Growing THEN Clear ELSE Resize(Min(MaxB, Len(m) + n)))
         [] r <= 10 /\ more -> Emplace(<<"emplace", "emplace_list", "emplace_convert">>[(u % 3) + 1], Run(x, IF u <= 3 THEN n % 4 ELSE Min(MaxLen, w)))
         [] r <= 14 /\ more -> (IF u = 1 THEN EmplaceEmpty ELSE IF empty THEN EmplaceEmpty ELSE EmplaceOwn(k))
         [] r <= 16 -> TooLarge(<<"too_large", "push_full", "insert_large">>[(u % 3) + 1], (CASE w <= 5 -> MaxPage + 1 [] w <= 10 -> 65536 + n [] OTHER -> MaxPage + 1 + w))
         [] r <= 22 /\ more -> (IF empty \/ u <= 4 THEN InsertBucket(IF u = 1 THEN Len(m) ELSE k, Run(x, n)) ELSE InsertOwn(k, j))
         [] r <= 42 /\ ~empty /\ room -> Push(k, x)
         [] r <= 50 /\ ~empty /\ room /\ lj > 0 -> PushOwn(k, j, q)
         [] r <= 57 /\ ~empty /\ room -> Insert(k, IF u <= 2 THEN lk ELSE p, x)
         [] r <= 65 /\ ~empty -> ResizeB(k, IF u <= 3 THEN p ELSE Min(MaxLen, lk + n), x)
         [] r <= 70 /\ ~empty -> Resize(IF u <= 3 THEN k ELSE Min(MaxB, Len(m) + n))
         [] r <= 71 -> Clear
         [] r <= 77 /\ lk > 0 -> Write(<<"write", "write_at", "write_front", "write_back">>[(u % 4) + 1], k, CASE u % 4 = 2 -> 0 [] u % 4 = 3 -> lk - 1 [] OTHER -> p, x)
         [] r <= 81 -> At(IF u <= 2 THEN Len(m) + n ELSE k)
         [] r <= 85 /\ ~empty -> At2(k, IF u <= 2 THEN lk + n ELSE p)
         [] r <= 87 /\ ~empty -> Ends
         [] r <= 90 /\ ~empty -> Walk(Min(k, j), IF k > j THEN k ELSE j)
         [] r <= 93 -> CopyTo
         [] r <= 95 -> CopyAssign
         [] r <= 96 -> Swap
         [] OTHER -> Reload
SimSpec == Init /\ [][SimNext]_vars
Frame == [][(Len(hist') > Len(hist)) => LET e == hist'[Len(hist')] IN
   e[1] \in {"push", "push_own", "insert", "resize_bucket"} => Len(m') = Len(m) /\ \A k \in 1..Len(m) : k # e[2][1] + 1 => m'[k] = m[k]]_vars
=============================================================================
