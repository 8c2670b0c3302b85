------------------------------- MODULE RTree -------------------------------
(* Spatial tree: a bag of entries <<x1, y1, x2, y2, id>> (closed rectangles). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS C,        \* coordinates 0..C
          NId, Depth, Phase, MaxN, Full, Pattern
VARIABLES m, o, hist, done
vars == <<m, o, hist, done>>
RECURSIVE Less(_, _)
Less(a, b) == IF a = << >> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Pos(q, e) == Cardinality({k \in 1..Len(q) : Less(q[k], e)})
Put(q, e) == LET p == Pos(q, e) IN SubSeq(q, 1, p) \o <<e>> \o SubSeq(q, p + 1, Len(q))
Drop(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Rect(e) == SubSeq(e, 1, 4)
Meets(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]
Hits(q, r) == SelectSeq(q, LAMBDA e : Meets(e, r))
Sum(q) == FoldSeq(LAMBDA e, acc : acc + e[1] + 3 * e[2] + 5 * e[3] + 11 * e[4] + 7 * e[5], 0, q)
View(q) == IF Full THEN q ELSE <<Len(q), Sum(q)>>
Init == m = << >> /\ o = << >> /\ hist = << >> /\ done = FALSE
Log(op, args, res) == hist' = Append(hist, <<op, args, <<res, View(m'), Len(o')>>>>) /\ UNCHANGED done
Same == UNCHANGED <<m, o>>
Insert(e) == m' = Put(m, e) /\ UNCHANGED o /\ Log("insert", <<e>>, 0)
\* insert the payload of entry k (a reference into the tree) with rectangle r
InsertOwn(k, r) == k <= Len(m) /\ m' = Put(m, r \o <<m[k][5]>>) /\ UNCHANGED o /\ Log("insert_own", <<m[k], r>>, 0)
Del(op, e) == LET at == SelectInSeq(m, LAMBDA x : x = e) IN
    m' = (IF at = 0 THEN m ELSE Drop(m, at)) /\ UNCHANGED o /\ Log(op, <<e>>, 0)
Search(op, r) == Same /\ Log(op, <<r>>, LET h == Hits(m, r) IN IF Full THEN h ELSE <<Len(h), Sum(h)>>)
Stop(r, n) == Same /\ Log("stop", <<r, n>>, LET h == Len(Hits(m, r)) IN IF h < n THEN h ELSE n)   \* visits until the visitor says stop
CopyTo == o' = m /\ UNCHANGED m /\ Log("copy_to", << >>, 0)
CopyAssign == m' = o /\ UNCHANGED o /\ Log("copy_assign", << >>, 0)
Swap == m' = o /\ o' = m /\ Log("swap", << >>, 0)
Reload == Same /\ Log("reload", << >>, 0)
Finish == /\ Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<m, o, hist>>

\* all short histories over three rectangles on a line, two of them equal
E1 == <<0, 0, 1, 1, 1>>
E2 == <<0, 0, 1, 1, 2>>
E3 == <<2, 0, 2, 2, 3>>
E4 == <<1, 1, 3, 3, 4>>
Base == [k \in 1..4 |-> <<(5 * k) % 4, (3 * k) % 3, ((5 * k) % 4) + (k % 2), ((3 * k) % 3) + 1, 10 + k>>]
EnumNext == (Len(hist) < Depth /\
   IF Len(hist) < 4 THEN Insert(Base[Len(hist) + 1])
   ELSE \/ \E e \in {E1, E2, E3, E4} : Insert(e) \/ Del("delete", e)
        \/ \E k \in 1..4 : Del(IF k % 2 = 0 THEN "delete" ELSE "delete_fn", Base[k])
        \/ Reload) \/ Finish
EnumSpec == Init /\ [][EnumNext]_vars

Pick(S) == RandomElement(S)
Growing == (Len(hist) \div Phase) % 2 = 0
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, a \in {Pick(0..C)}, b \in {Pick(0..C)}, c \in {Pick(0..C)}, d \in {Pick(0..C)}, id \in {Pick(1..NId)}, u \in {Pick(1..6)} :
       \E k \in {IF m = << >> THEN 0 ELSE Pick(1..Len(m))} :
       LET any == <<Lo(a, b), Lo(c, d), Hi(a, b), Hi(c, d)>>
           small == <<a, c, Lo(C, a + (b % 3)), Lo(C, c + (d % 3))>>
           n == Len(hist)
           rect == CASE Pattern = "down" /\ u <= 5 -> <<Hi(0, C - n), c % 2, Hi(0, C - n), 1>>
                     [] Pattern = "up" /\ u <= 5 -> <<Lo(C, n), c % 2, Lo(C, n), 1>>
                     [] Pattern = "mix" /\ u = 1 -> any
                     [] OTHER -> small
           here == IF k = 0 THEN any ELSE Rect(m[k])
           more == Len(m) < MaxN
           grow == more /\ (IF Pattern \in {"down", "up"} THEN r <= 75 ELSE r <= (IF Growing THEN 50 ELSE 15)) IN
       CASE grow -> (IF u = 1 /\ k > 0 THEN InsertOwn(k, rect) ELSE IF u = 2 /\ k > 0 THEN Insert(here \o <<id>>) ELSE Insert(rect \o <<id>>))
         [] ~grow /\ r <= (IF Pattern \in {"down", "up"} THEN 80 ELSE IF Growing THEN 62 ELSE 70) ->
               (IF k = 0 \/ u = 1 THEN Del("delete", here \o <<id>>) ELSE Del(IF u <= 3 THEN "delete_fn" ELSE "delete", m[k]))
         [] r <= 75 -> Search("search", IF u <= 3 THEN any ELSE here)
         [] r <= 85 -> Search("search", IF u <= 3 THEN small ELSE <<a, c, a, c>>)
         [] r <= 90 -> Stop(IF u <= 3 THEN <<0, 0, C, C>> ELSE any, 1 + (d % 4))
         [] r <= 93 -> CopyTo
         [] r <= 94 -> CopyAssign
         [] r <= 95 -> Swap
         [] OTHER -> Reload
SimSpec == Init /\ [][SimNext]_vars
Sorted == \A k \in 1..(Len(m) - 1) : ~Less(m[k + 1], m[k])
=============================================================================
