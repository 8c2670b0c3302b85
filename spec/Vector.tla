------------------------------ MODULE Vector ------------------------------
(* Two sequences of integers (0 is the default constructed element) and the
   public operations of a growable vector on them.  A position returned to the
   caller is 0-based; every step records <<result, contents, size of other>>.
   A moved-from vector is cleared by the replayer, so a move leaves it empty. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NV,      \* element values are 1..NV
          MaxLen,  \* operations that would exceed this length are not generated
          Depth, Phase

Idx == 1..2
Other(i) == 3 - i
Vals == 1..NV

VARIABLES s, hist, done
vars == <<s, hist, done>>

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
InsertAt(q, p, e) == SubSeq(q, 1, p) \o e \o SubSeq(q, p + 1, Len(q))     \* p elements stay in front
RemoveRange(q, a, b) == SubSeq(q, 1, a) \o SubSeq(q, b + 1, Len(q))       \* removes 0-based [a, b)
Rep(n, x) == [k \in 1..n |-> x]
Resized(q, n, x) == IF n <= Len(q) THEN SubSeq(q, 1, n) ELSE q \o Rep(n - Len(q), x)
Run(x, n) == [k \in 1..n |-> ((x + k - 2) % NV) + 1]                      \* x, x+1, ... (cyclic)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = << >> THEN b # << >>
                 ELSE IF b = << >> THEN FALSE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))

Init == /\ s = [i \in Idx |-> << >>] /\ hist = << >> /\ done = FALSE

Log(op, args, i, res) ==
  /\ hist' = Append(hist, <<op, args, <<res, s'[i], Len(s'[Other(i)])>>>>)
  /\ UNCHANGED done
Upd(i, q) == /\ Len(q) <= MaxLen /\ s' = [s EXCEPT ![i] = q]
Same == UNCHANGED s

Push(op, i, x) == Upd(i, Append(s[i], x)) /\ Log(op, <<i, x>>, i, x)           \* push_back (copy/move), emplace_back
PushOwn(op, i, p) ==                                                          \* the argument is an element of the vector
  /\ p < Len(s[i]) /\ Upd(i, Append(s[i], s[i][p + 1])) /\ Log(op, <<i, p>>, i, s[i][p + 1])
EmplaceDefault(i) == Upd(i, Append(s[i], 0)) /\ Log("emplace_default", <<i>>, i, 0)
Pop(i) == s[i] # << >> /\ Upd(i, SubSeq(s[i], 1, Len(s[i]) - 1)) /\ Log("pop", <<i>>, i, 0)
Insert(op, i, p, x) == p <= Len(s[i]) /\ Upd(i, InsertAt(s[i], p, <<x>>)) /\ Log(op, <<i, p, x>>, i, p)
InsertOwn(i, p, e) ==
  /\ p <= Len(s[i]) /\ e < Len(s[i]) /\ Upd(i, InsertAt(s[i], p, <<s[i][e + 1]>>)) /\ Log("insert_own", <<i, p, e>>, i, p)
InsertN(i, p, n, x) == p <= Len(s[i]) /\ Upd(i, InsertAt(s[i], p, Rep(n, x))) /\ Log("insert_n", <<i, p, n, x>>, i, p)
InsertNOwn(i, p, n, e) ==
  /\ p <= Len(s[i]) /\ e < Len(s[i]) /\ Upd(i, InsertAt(s[i], p, Rep(n, s[i][e + 1])))
  /\ Log("insert_n_own", <<i, p, n, e>>, i, p)
InsertRange(op, i, p, x, n) ==                                                \* forward, input, move iterators
  /\ p <= Len(s[i]) /\ Upd(i, InsertAt(s[i], p, Run(x, n))) /\ Log(op, <<i, p, Run(x, n)>>, i, p)
InsertOther(i, p, a, b) ==                                                    \* a range of the other vector
  /\ p <= Len(s[i]) /\ a <= b /\ b <= Len(s[Other(i)])
  /\ Upd(i, InsertAt(s[i], p, SubSeq(s[Other(i)], a + 1, b))) /\ Log("insert_other", <<i, p, a, b>>, i, p)
Erase(i, p) == p < Len(s[i]) /\ Upd(i, RemoveRange(s[i], p, p + 1)) /\ Log("erase", <<i, p>>, i, p)
EraseRange(i, a, b) == a <= b /\ b <= Len(s[i]) /\ Upd(i, RemoveRange(s[i], a, b)) /\ Log("erase_range", <<i, a, b>>, i, a)
Remove(i, x) ==                                                               \* erase(remove(..), end)
  /\ Upd(i, SelectSeq(s[i], LAMBDA y : y # x))
  /\ Log("remove", <<i, x>>, i, Len(SelectSeq(s[i], LAMBDA y : y # x)))
Resize(i, n) == Upd(i, Resized(s[i], n, 0)) /\ Log("resize", <<i, n>>, i, n)
ResizeVal(i, n, x) == Upd(i, Resized(s[i], n, x)) /\ Log("resize_val", <<i, n, x>>, i, n)
Reserve(i, n) == Same /\ Log("reserve", <<i, n>>, i, 0)
Clear(i) == Upd(i, << >>) /\ Log("clear", <<i>>, i, 0)
Set(op, i, x, n) == Upd(i, Run(x, n)) /\ Log(op, <<i, Run(x, n)>>, i, n)      \* set(range), constructors
SizeConstruct(i, n) == Upd(i, Rep(n, 0)) /\ Log("size_construct", <<i, n>>, i, n)
FillConstruct(i, n, x) == Upd(i, Rep(n, x)) /\ Log("fill_construct", <<i, n, x>>, i, n)
Write(op, i, p, x) == p < Len(s[i]) /\ Upd(i, [s[i] EXCEPT ![p + 1] = x]) /\ Log(op, <<i, p, x>>, i, x)
At(i, p) == Same /\ Log("at", <<i, p>>, i, IF p < Len(s[i]) THEN s[i][p + 1] ELSE -1)
CopyAssign(i) == Upd(i, s[Other(i)]) /\ Log("copy_assign", <<i>>, i, TRUE)
CopyConstruct(i) == Same /\ Log("copy_construct", <<i>>, i, TRUE)
MoveAssign(i) == s' = [x \in Idx |-> IF x = i THEN s[Other(i)] ELSE << >>] /\ Log("move_assign", <<i>>, i, 0)
MoveConstruct(i) == Same /\ Log("move_construct", <<i>>, i, 0)
Swap(i) == s' = [x \in Idx |-> s[Other(x)]] /\ Log("swap", <<i>>, i, 0)
SelfAssign(i) == Same /\ Log("self_assign", <<i>>, i, 0)
Compare(i) == LET a == s[i] b == s[Other(i)] IN
  Same /\ Log("compare", <<i>>, i, <<a = b, a # b, LexLess(a, b), LexLess(b, a), ~LexLess(b, a), ~LexLess(a, b)>>)
Reload(i) == Same /\ Log("reload", <<i>>, i, 0)                              \* serialize, deserialize, continue on the result

Finish == /\ Len(hist) = Depth /\ ~done
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
          /\ done' = TRUE /\ UNCHANGED <<s, hist>>

Pos == 0..MaxLen
Step(i) ==
  \/ \E x \in Vals : Push("push", i, x)
  \/ EmplaceDefault(i) \/ Pop(i) \/ Clear(i) \/ CopyAssign(i) \/ CopyConstruct(i) \/ MoveAssign(i) \/ MoveConstruct(i)
  \/ Swap(i) \/ SelfAssign(i) \/ Compare(i) \/ Reload(i)
  \/ \E p \in Pos : PushOwn("push_own", i, p) \/ Erase(i, p) \/ Resize(i, p) \/ At(i, p) \/ Reserve(i, p) \/ SizeConstruct(i, p)
  \/ \E p \in Pos, x \in Vals : Insert("insert", i, p, x) \/ Write("write", i, p, x) \/ ResizeVal(i, p, x) \/ FillConstruct(i, p, x)
  \/ \E p \in Pos, q \in Pos : InsertOwn(i, p, q) \/ EraseRange(i, p, q)
  \/ \E p \in Pos, n \in 0..2, x \in Vals : InsertN(i, p, n, x) \/ InsertRange("insert_range", i, p, x, n) \/ Set("set", i, x, n)
  \/ \E p \in Pos, a \in Pos, b \in Pos : InsertOther(i, p, a, b)
  \/ \E x \in Vals : Remove(i, x)
Next == \E i \in Idx : Step(i)
Spec == Init /\ [][Next]_vars
View == s
TypeOK == \A i \in Idx : Len(s[i]) <= MaxLen /\ \A k \in DOMAIN s[i] : s[i][k] \in 0..NV
(* the size always changes by exactly what the operation says *)
SizeLaw == [][(Len(hist') > Len(hist)) =>
   LET e == hist'[Len(hist')] i == e[2][1] d == Len(s'[i]) - Len(s[i]) IN
   /\ (e[1] \in {"push", "push_own", "insert", "insert_own", "emplace_default"} => d = 1)
   /\ (e[1] \in {"pop", "erase"} => d = -1)
   /\ (e[1] = "insert_n" => d = e[2][3])
   /\ (e[1] = "erase_range" => d = e[2][2] - e[2][3])
   /\ (e[1] \notin {"swap", "move_assign"} => s'[Other(i)] = s[Other(i)])]_vars

EnumNext == (Len(hist) < Depth /\
               \/ \E x \in Vals : Push("push", 1, x) \/ Push("emplace", 2, x)
               \/ Pop(1) \/ Clear(1) \/ CopyAssign(2) \/ MoveAssign(1) \/ CopyConstruct(1) \/ MoveConstruct(2) \/ Swap(1) \/ Reload(1)
               \/ \E p \in {0, 2} : PushOwn("push_own", 1, p) \/ Erase(1, p) \/ Resize(1, p) \/ InsertOwn(1, p, 0)
               \/ \E p \in {0, 1} : Insert("insert", 1, p, 1) \/ InsertRange("insert_range", 1, p, 1, 2) \/ EraseRange(1, p, 2)
               \/ InsertOther(1, 1, 0, 1) \/ Compare(1) \/ InsertN(1, 0, 2, 1) \/ Set("set", 1, 1, 2))
            \/ Finish
EnumSpec == Init /\ [][EnumNext]_vars

Growing == (Len(hist) \div Phase) % 2 = 0
Pick(S) == RandomElement(S)
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, i \in {Pick({1, 1, 2})}, x \in {Pick(Vals)}, n \in {Pick(0..6)}, t \in {Pick(1..6)} :
       \E p \in {Pick(0..Len(s[i]))}, a0 \in {Pick(0..Len(s[i]))}, oa \in {Pick(0..Len(s[Other(i)]))}, ob \in {Pick(0..Len(s[Other(i)]))} :
       LET full == Len(s[i]) + 6 > MaxLen
           q == Len(s[i])
           inner == IF q = 0 THEN 0 ELSE p % q
           lo == Min(p, a0) hi == Max(p, a0) IN
       CASE full \/ (~Growing /\ r <= 40) ->
              (CASE t = 1 -> IF q > 0 THEN Pop(i) ELSE Clear(i)
                 [] t = 2 -> IF q > 0 THEN Erase(i, inner) ELSE Clear(i)
                 [] t = 3 -> EraseRange(i, lo, hi)
                 [] t = 4 -> Resize(i, p)
                 [] t = 5 -> Remove(i, x)
                 [] OTHER -> IF n = 0 THEN Clear(i) ELSE IF q > 0 THEN Pop(i) ELSE Clear(i))
         [] r <= 12 -> Push(<<"push", "push_move", "emplace">>[(t % 3) + 1], i, x)
         [] r <= 16 -> IF q > 0 THEN PushOwn(<<"push_own", "emplace_own", "push_own">>[(t % 3) + 1], i, inner) ELSE EmplaceDefault(i)
         [] r <= 18 -> EmplaceDefault(i)
         [] r <= 24 -> Insert(IF t <= 3 THEN "insert" ELSE "insert_move", i, p, x)
         [] r <= 28 -> IF q > 0 THEN InsertOwn(i, p, a0 % q) ELSE Insert("insert", i, p, x)
         [] r <= 31 -> InsertN(i, p, n, x)
         [] r <= 33 -> IF q > 0 THEN InsertNOwn(i, p, n, inner) ELSE InsertN(i, p, n, x)
         [] r <= 37 -> InsertRange("insert_range", i, p, x, n)
         [] r <= 39 -> InsertRange("insert_input", i, p, x, n)
         [] r <= 41 -> InsertRange("insert_moved", i, p, x, n)
         [] r <= 45 -> IF Len(s[i]) + Len(s[Other(i)]) <= MaxLen THEN InsertOther(i, p, Min(oa, ob), Max(oa, ob)) ELSE EraseRange(i, lo, hi)
         [] r <= 48 -> IF q > 0 THEN Erase(i, inner) ELSE Clear(i)
         [] r <= 51 -> EraseRange(i, lo, hi)
         [] r <= 53 -> Resize(i, Min(p + n, MaxLen))
         [] r <= 55 -> ResizeVal(i, Min(p + n, MaxLen), x)
         [] r <= 57 -> Reserve(i, p + 4 * n)
         [] r <= 58 -> IF n = 0 THEN Clear(i) ELSE IF q > 0 THEN Pop(i) ELSE Clear(i)
         [] r <= 61 -> Set(<<"set", "range_construct", "list_construct">>[(t % 3) + 1], i, x, n)
         [] r <= 62 -> IF t <= 3 THEN SizeConstruct(i, n) ELSE FillConstruct(i, n, x)
         [] r <= 67 -> IF q > 0 THEN Write(<<"write", "write_at", "write_back", "write_front">>[(t % 4) + 1], i,
                                            (CASE t % 4 = 2 -> q - 1 [] t % 4 = 3 -> 0 [] OTHER -> inner), x)
                       ELSE At(i, n)
         [] r <= 70 -> At(i, IF t = 1 THEN q + n ELSE p)
         [] r <= 74 -> CopyAssign(i)
         [] r <= 77 -> CopyConstruct(i)
         [] r <= 80 -> MoveAssign(i)
         [] r <= 83 -> MoveConstruct(i)
         [] r <= 86 -> Swap(i)
         [] r <= 87 -> SelfAssign(i)
         [] r <= 90 -> Compare(i)
         [] r <= 92 -> Remove(i, x)
         [] OTHER   -> Reload(i)
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
