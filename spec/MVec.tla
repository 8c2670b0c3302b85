-------------------------------- MODULE MVec --------------------------------
(* Vector in a memory mapped file: a sequence that survives closing and reopening;
   the file is exactly as long as the elements. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NV, MaxLen, Depth, Def      \* Def: value of a default constructed element
VARIABLES m, ro, hist, done
vars == <<m, ro, hist, done>>
Run(x, n) == [k \in 1..n |-> ((x + k - 2) % NV) + 1]
InsertAt(q, p, e) == SubSeq(q, 1, p) \o e \o SubSeq(q, p + 1, Len(q))
Init == m = << >> /\ ro = FALSE /\ hist = << >> /\ done = FALSE
Log(op, args, res) == hist' = Append(hist, <<op, args, <<res, m'>>>>) /\ UNCHANGED done
Upd(q) == m' = q /\ UNCHANGED ro
Rw == ~ro
Push(op, x) == Rw /\ Upd(Append(m, x)) /\ Log(op, <<x>>, x)
PushOwn(p) == Rw /\ p < Len(m) /\ Upd(Append(m, m[p + 1])) /\ Log("push_own", <<p>>, m[p + 1])
Insert(op, p, x) == Rw /\ p <= Len(m) /\ Upd(InsertAt(m, p, <<x>>)) /\ Log(op, <<p, x>>, p)
InsertOwn(p, q) == Rw /\ p <= Len(m) /\ q < Len(m) /\ Upd(InsertAt(m, p, <<m[q + 1]>>)) /\ Log("insert_own", <<p, q>>, p)
InsertRange(op, p, e) == Rw /\ p <= Len(m) /\ Upd(InsertAt(m, p, e)) /\ Log(op, <<p, e>>, p)
SetTo(op, e) == Rw /\ Upd(e) /\ Log(op, <<e>>, 0)
Resize(n) == Rw /\ Upd([k \in 1..n |-> IF k <= Len(m) THEN m[k] ELSE Def]) /\ Log("resize", <<n>>, 0)
Reserve(n) == Rw /\ Upd(m) /\ Log("reserve", <<n>>, 0)
Write(p, x) == Rw /\ p < Len(m) /\ Upd([m EXCEPT ![p + 1] = x]) /\ Log("write", <<p, x>>, x)
Reopen(r) == m' = m /\ ro' = r /\ Log("reopen", <<r>>, 0)     \* close, then open for reading or modification
MoveC == Upd(m) /\ Log("move", << >>, 0)
Fresh == m' = << >> /\ ro' = FALSE /\ Log("fresh", << >>, 0)        \* assign a new mapping of the same file name, created anew
Finish == /\ Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<m, ro, hist>>
EnumNext == (Len(hist) < Depth /\ Len(m) < MaxLen /\ (Push("push", 1) \/ Push("emplace", 2) \/ PushOwn(0) \/ Insert("insert", 0, 3) \/ InsertOwn(0, 0) \/ InsertRange("insert_fwd", 0, <<4, 5>>)
    \/ (\E n \in {0, 1, 3} : Resize(n)) \/ (\E n \in {1, 9} : Reserve(n)) \/ SetTo("set", <<6, 7>>) \/ (\E r \in BOOLEAN : Reopen(r)))) \/ Finish
EnumSpec == Init /\ [][EnumNext]_vars
Pick(S) == RandomElement(S)
Min(a, b) == IF a < b THEN a ELSE b
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, x \in {Pick(1..NV)}, n \in {Pick(0..9)}, u \in {Pick(1..8)}, w \in {Pick(0..500)}, v \in {Pick(0..500)} :
       LET l == Len(m)
           p == w % (l + 1)
           q == IF l = 0 THEN 0 ELSE v % l
           room == l < MaxLen IN
       CASE ro /\ r <= 80 -> (IF r <= 10 THEN Reopen(TRUE) ELSE IF r <= 20 THEN MoveC ELSE Reopen(FALSE))
         [] ro -> Fresh
         [] r <= 15 /\ room -> Push(IF u <= 4 THEN "push" ELSE "emplace", x)
         [] r <= 25 /\ l > 0 /\ room -> PushOwn(q)
         [] r <= 35 /\ room -> Insert(IF u <= 4 THEN "insert" ELSE "insert_move", p, x)
         [] r <= 41 /\ l > 0 /\ room -> InsertOwn(p, q)
         [] r <= 53 /\ room -> InsertRange(IF u <= 4 THEN "insert_fwd" ELSE "insert_input", p, Run(x, n))
         [] r <= 58 -> SetTo(IF u <= 6 THEN "set" ELSE "set_input", Run(x, IF u = 1 THEN 3 * n ELSE n))
         [] r <= 66 -> Resize(IF u <= 4 THEN p ELSE Min(MaxLen, l + n))
         [] r <= 74 -> Reserve(IF u <= 4 THEN p ELSE l + 5 * n)
         [] r <= 82 /\ l > 0 -> Write(q, x)
         [] r <= 92 -> Reopen(u <= 3)
         [] r <= 97 -> MoveC
         [] OTHER -> Fresh
SimSpec == Init /\ [][SimNext]_vars
ReadOnly == [][ro /\ ro' => m' = m]_vars
=============================================================================
