-------------------------------- MODULE NVec --------------------------------
(* Nested vector with Levels index levels: a sequence of values nested Levels
   deep above the innermost buckets (append only; elements may be overwritten).
   Innermost elements are integers.  Positions are 0-based. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Levels, NV, MaxTop, Depth

VARIABLES s, hist, done
vars == <<s, hist, done>>
Pick(S) == RandomElement(S)
RECURSIVE Shape(_, _, _), Path(_, _), Put(_, _, _)
\* a nested sequence of depth d drawn from seed k; empty sequences occur at every level
Mix(k, j) == (k * 31 + j * 17 + k \div 7) % 9973
Shape(d, k, j) == LET n == Mix(k, j) % 4 IN
  IF d = 1 THEN [p \in 1..n |-> (Mix(k + p, j + 3) % NV) + 1]
  ELSE [p \in 1..n |-> Shape(d - 1, Mix(k, p), j + p)]
\* the value at a path of indexes, or -1 if an index is out of range
Path(v, q) == IF q = << >> THEN <<v>> ELSE IF q[1] < Len(v) THEN Path(v[q[1] + 1], Tail(q)) ELSE << >>
Put(v, q, x) == IF q = << >> THEN x ELSE [v EXCEPT ![q[1] + 1] = Put(@, Tail(q), x)]
RECURSIVE RandPath(_, _, _)
\* n indexes; "off" moves the last one past the end
RandPath(v, n, k) == IF n = 0 \/ Len(v) = 0 THEN [p \in 1..n |-> p - 1]
                     ELSE LET j == Mix(k, n) % Len(v) IN <<j>> \o RandPath(v[j + 1], n - 1, Mix(k, j + 5))
Init == s = << >> /\ hist = << >> /\ done = FALSE
Log(op, args, res) == hist' = Append(hist, <<op, args, <<res, s'>>>>) /\ UNCHANGED done
Append1(v) == s' = Append(s, v) /\ Log("emplace_back", <<v>>, Len(s) + 1)
Get(q) == LET r == Path(s, q) IN IF r = << >> THEN "throw" ELSE r[1]
At(q) == UNCHANGED s /\ Log("at", q, Get(q))                        \* Levels indexes: an innermost bucket
SizeOf(q) == UNCHANGED s /\ Log("size", q, LET r == Path(s, q) IN IF r = << >> THEN "throw" ELSE Len(r[1]))
Sub(q) == Path(s, q) # << >> /\ UNCHANGED s /\ Log("sub", q, Get(q))  \* operator[] chain
Write(q, x) == Path(s, q) # << >> /\ s' = Put(s, q, x) /\ Log("write", Append(q, x), x)
Ends == s # << >> /\ UNCHANGED s /\ Log("ends", << >>, <<s[1], s[Len(s)]>>)
Copy == UNCHANGED s /\ Log("copy", << >>, Len(s))
Reload == UNCHANGED s /\ Log("reload", << >>, Len(s))
Finish == /\ Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<s, hist>>
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, k \in {Pick(1..9000)}, j \in {Pick(0..9000)}, x \in {Pick(1..NV)}, off \in {Pick(0..3)} :
       LET bump(q) == IF off # 0 THEN q
                      ELSE LET d == (k % Len(q)) + 1 pre == Path(s, SubSeq(q, 1, d - 1)) IN
                           [q EXCEPT ![d] = IF pre = << >> THEN @ ELSE Len(pre[1]) + (j % 2)] IN
       CASE s = << >> /\ r <= 70 -> Append1(Shape(Levels, k, j))
         [] r <= 30 /\ Len(s) < MaxTop -> Append1(Shape(Levels, k, j))
         [] r <= 50 -> At(bump(RandPath(s, Levels, k)))
         [] r <= 65 -> SizeOf(bump(RandPath(s, 1 + (j % Levels), k)))
         [] r <= 75 -> (LET q == RandPath(s, 1 + (j % Levels), k) IN IF Path(s, q) # << >> THEN Sub(q) ELSE SizeOf(q))
         [] r <= 88 -> (LET q == RandPath(s, Levels + 1, k) IN IF Path(s, q) # << >> THEN Write(q, x) ELSE At(SubSeq(q, 1, Levels)))
         [] r <= 92 /\ s # << >> -> Ends
         [] r <= 95 -> Copy
         [] OTHER -> Reload
SimSpec == Init /\ [][SimNext]_vars

\* exhaustive: every small shape is appended and read back
RECURSIVE Values(_)
Values(d) == IF d = 1 THEN {<< >>, <<1>>, <<1, 2>>} ELSE UNION {[1..n -> Values(d - 1)] : n \in 0..2}
EnumNext == \/ Len(s) < MaxTop /\ \E v \in Values(Levels) : Append1(v)
            \/ Len(hist) = Depth /\ Finish
            \/ Len(s) = MaxTop /\ Len(hist) < Depth /\ \E q \in [1..Levels -> 0..2] : (\A d \in 2..Levels : q[d] <= 1) /\ At(q)
EnumSpec == Init /\ [][EnumNext]_vars
View == s
\* appending changes nothing that was stored before
Monotone == [][Len(s') >= Len(s) /\ (Len(s') > Len(s) => SubSeq(s', 1, Len(s)) = s)]_vars
=============================================================================
