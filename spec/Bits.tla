-------------------------------- MODULE Bits --------------------------------
(* Two sets of bit positions with a size (fixed for bit sets).  Every step records
   <<result, positions of the touched object, its size, number of positions of the other>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt

CONSTANTS Sizes,   \* sizes an object may get
          Fixed,   \* BOOLEAN: bit set (size never changes) or bit vector
          Depth

Idx == 1..2
Other(i) == 3 - i
VARIABLES n, b, hist, done
vars == <<n, b, hist, done>>

Pos(i) == 0..(n[i] - 1)
Sorted(S) == SetToSortSeq(S, <)
RECURSIVE Less(_, _)
\* lexicographic from the most significant position: the value of the highest differing position decides
Less(x, y) == LET d == (x \ y) \cup (y \ x) IN
              d # {} /\ (CHOOSE p \in d : \A q \in d : q <= p) \in y
Shl(S, k, sz) == {p + k : p \in {q \in S : q + k < sz}}
Shr(S, k) == {p - k : p \in {q \in S : q >= k}}
Next1(S, p) == LET c == {q \in S : q >= p} IN IF c = {} THEN -1 ELSE CHOOSE q \in c : \A r \in c : q <= r
\* position bits.  text[1] is the most significant one
Text(S, sz) == [k \in 1..sz |-> IF (sz - k) \in S THEN 1 ELSE 0]

Sz0 == CHOOSE x \in Sizes : TRUE
Init == /\ n = [i \in Idx |-> IF Fixed THEN Sz0 ELSE 0]
        /\ b = [i \in Idx |-> {}]
        /\ hist = << >> /\ done = FALSE
Log(op, args, i, res) ==
  /\ hist' = Append(hist, <<op, args, <<res, Sorted(b'[i]), n'[i], Cardinality(b'[Other(i)])>>>>)
  /\ UNCHANGED done
Upd(i, S) == b' = [b EXCEPT ![i] = S] /\ UNCHANGED n
Same == UNCHANGED <<n, b>>

Set(op, i, p) == p \in Pos(i) /\ Upd(i, b[i] \cup {p}) /\ Log(op, <<i, p>>, i, TRUE)
Unset(op, i, p) == p \in Pos(i) /\ Upd(i, b[i] \ {p}) /\ Log(op, <<i, p>>, i, FALSE)
SetRange(i, p, q) == /\ p \in Pos(i) /\ q \in Pos(i) /\ Upd(i, b[i] \cup (p..q)) /\ Log("set_range", <<i, p, q>>, i, TRUE)
Resize(i, sz) == /\ ~Fixed /\ n' = [n EXCEPT ![i] = sz] /\ b' = [b EXCEPT ![i] = {p \in @ : p < sz}]
                 /\ Log("resize", <<i, sz>>, i, sz)
Zero(op, i) == Upd(i, {}) /\ Log(op, <<i>>, i, 0)
One(op, i) == Upd(i, Pos(i)) /\ Log(op, <<i>>, i, n[i])
FromText(op, i, S, sz) ==      \* S: set of positions of a text of length sz
  IF Fixed
  THEN LET m == IF sz < n[i] THEN sz ELSE n[i] IN
       /\ Upd(i, {p \in S : p < m} \cup (IF op = "construct_text" THEN {} ELSE {p \in b[i] : p >= m}))
       /\ Log(op, <<i, Text(S, sz)>>, i, 0)
  ELSE /\ n' = [n EXCEPT ![i] = sz] /\ b' = [b EXCEPT ![i] = S] /\ Log(op, <<i, Text(S, sz)>>, i, 0)
Flip(i) == Upd(i, Pos(i) \ b[i]) /\ Log("flip", <<i>>, i, 0)
Bin(op, i, S) == n[1] = n[2] /\ Upd(i, S) /\ Log(op, <<i>>, i, 0)
And(i) == Bin("and", i, b[i] \cap b[Other(i)])
Or(i)  == Bin("or", i, b[i] \cup b[Other(i)])
Xor(i) == Bin("xor", i, (b[i] \ b[Other(i)]) \cup (b[Other(i)] \ b[i]))
ShlOp(op, i, k) == Upd(i, Shl(b[i], k, n[i])) /\ Log(op, <<i, k>>, i, 0)
ShrOp(op, i, k) == Upd(i, Shr(b[i], k)) /\ Log(op, <<i, k>>, i, 0)
NextBit(i, p) == Same /\ Log("next", <<i, p>>, i, IF p < n[i] THEN Next1(b[i], p) ELSE -1)
Test(i, p) == Same /\ Log("test", <<i, p>>, i, p \in b[i])
Claim(i, p) == Same /\ Log("claim", <<i, p>>, i, Sorted({q \in b[i] : q >= p}))
Compare(i) == Same /\ Log("compare", <<i>>, i,
   IF n[1] = n[2]
   THEN LET x == b[i] y == b[Other(i)] IN <<x = y, x # y, Less(x, y), Less(y, x), ~Less(y, x), ~Less(x, y)>>
   ELSE <<FALSE, TRUE>>)
CopyAssign(i) == /\ n' = [n EXCEPT ![i] = n[Other(i)]] /\ b' = [b EXCEPT ![i] = b[Other(i)]] /\ Log("copy_assign", <<i>>, i, TRUE)
CopyConstruct(i) == Same /\ Log("copy_construct", <<i>>, i, TRUE)
MoveConstruct(i) == Same /\ Log("move_construct", <<i>>, i, 0)
Swap(i) == n' = [x \in Idx |-> n[Other(x)]] /\ b' = [x \in Idx |-> b[Other(x)]] /\ Log("swap", <<i>>, i, 0)
Reload(i) == Same /\ Log("reload", <<i>>, i, 0)

Finish == /\ Len(hist) = Depth /\ ~done
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
          /\ done' = TRUE /\ UNCHANGED <<n, b, hist>>

Ks == 0..4
Next == \E i \in Idx :
  \/ \E p \in Ks : Set("set", i, p) \/ Unset("unset", i, p) \/ NextBit(i, p) \/ Claim(i, p) \/ ShlOp("shl", i, p) \/ ShrOp("shr", i, p)
  \/ \E sz \in Sizes : Resize(i, sz) \/ \E S \in SUBSET (0..(sz - 1)) : FromText("text", i, S, sz)
  \/ Zero("reset", i) \/ One("one_out", i) \/ Flip(i) \/ And(i) \/ Or(i) \/ Xor(i) \/ Compare(i) \/ CopyAssign(i) \/ Swap(i) \/ Reload(i)
Spec == Init /\ [][Next]_vars
View == <<n, b>>
InRange == \A i \in Idx : b[i] \subseteq Pos(i)
(* algebra the operations must satisfy *)
DeMorgan == n[1] = n[2] => Pos(1) \ (b[1] \cap b[2]) = (Pos(1) \ b[1]) \cup (Pos(2) \ b[2])
Shifts == \A i \in Idx, k \in Ks : Shl(Shr(b[i], k), k, n[i]) \subseteq b[i] /\ Shr(Shl(b[i], k, n[i]), k) \subseteq b[i]
TotalOrder == n[1] = n[2] => (Less(b[1], b[2]) \/ Less(b[2], b[1]) \/ b[1] = b[2]) /\ ~(Less(b[1], b[2]) /\ Less(b[2], b[1]))

Pick(S) == RandomElement(S)
Subset(sz, d, lo) == {p \in 0..(sz - 1) : (p * 7 + p * p * lo + d) % (lo + 1) = 0}
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, i \in Pick({{1}, {1}, {2}}), t \in {Pick(1..6)}, sz \in {Pick(Sizes)}, d \in {Pick(0..9)}, lo \in {Pick(1..5)} :
       \E p \in {IF n[i] > 0 THEN (IF t <= 2 THEN n[i] - 1 - (d % n[i]) ELSE Pick(0..(n[i] - 1))) ELSE 0},
          q \in {IF n[i] > 0 THEN Pick(0..(n[i] - 1)) ELSE 0},
          k \in {IF t = 1 THEN 64 ELSE IF t = 2 THEN d ELSE IF t = 3 THEN 0 ELSE IF t = 4 THEN n[i] + d ELSE Pick(0..(n[i] + 1))} :
       LET empty == n[i] = 0 IN
       CASE empty /\ r <= 60 -> (IF t <= 3 THEN Resize(i, sz) ELSE FromText("construct_text", i, Subset(sz, d, lo), sz))
         [] r <= 14 /\ ~empty -> Set(<<"set", "set_atomic", "set_val">>[(t % 3) + 1], i, p)
         [] r <= 24 /\ ~empty -> Unset(<<"unset", "unset_atomic">>[(t % 2) + 1], i, p)
         [] r <= 30 /\ ~empty -> SetRange(i, IF p < q THEN p ELSE q, IF p < q THEN q ELSE p)
         [] r <= 36 -> IF Fixed THEN Flip(i) ELSE Resize(i, IF d <= 2 /\ ~empty THEN q ELSE sz)
         [] r <= 38 -> Zero(<<"reset", "zero_out">>[(t % 2) + 1], i)
         [] r <= 40 -> One(<<"one_out", "max">>[(t % 2) + 1], i)
         [] r <= 44 -> FromText(<<"text", "construct_text">>[(t % 2) + 1], i, Subset(IF Fixed THEN sz + d - 5 ELSE sz, d, lo), IF Fixed THEN (IF sz + d - 5 < 0 THEN 0 ELSE sz + d - 5) ELSE sz)
         [] r <= 50 -> Flip(i)
         [] r <= 56 -> IF n[1] # n[2] THEN Resize(i, n[Other(i)]) ELSE (IF t <= 2 THEN And(i) ELSE IF t <= 4 THEN Or(i) ELSE Xor(i))
         [] r <= 63 -> ShlOp(<<"shl", "shl_copy">>[(t % 2) + 1], i, k)
         [] r <= 70 -> ShrOp(<<"shr", "shr_copy">>[(t % 2) + 1], i, k)
         [] r <= 76 -> NextBit(i, IF t = 1 THEN n[i] + d ELSE p)
         [] r <= 80 -> Test(i, IF t <= 3 THEN n[i] + d ELSE p)
         [] r <= 83 -> Claim(i, IF t = 1 THEN 0 ELSE p)
         [] r <= 87 -> Compare(i)
         [] r <= 90 -> CopyAssign(i)
         [] r <= 92 -> CopyConstruct(i)
         [] r <= 94 -> MoveConstruct(i)
         [] r <= 96 -> Swap(i)
         [] OTHER   -> Reload(i)
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
