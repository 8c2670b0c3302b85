-------------------------------- MODULE Fws --------------------------------
(* Frozen multimap: values are appended for the current key, finish_key starts
   the next one, finish_map closes the map; keys without values are allowed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NV, MaxKeys, MaxLen, Depth
VARIABLES m, cur, open, hist, done    \* m: finished keys, cur: values of the current key
vars == <<m, cur, open, hist, done>>
Pick(S) == RandomElement(S)
Init == m = << >> /\ cur = << >> /\ open = TRUE /\ hist = << >> /\ done = FALSE
All == IF open THEN << >> ELSE m
RECURSIVE Total(_)
Total(q) == IF q = << >> THEN 0 ELSE Len(q[1]) + Total(Tail(q))
\* after every step: finished?, the key being filled, number of values, contents when finished
Log(op, args, res) == /\ hist' = Append(hist, <<op, args, <<res, ~open', Total(m') + Len(cur'), IF open' THEN << >> ELSE m'>>>>)
                      /\ UNCHANGED done
Push(op, x) == open /\ Len(cur) < MaxLen /\ cur' = Append(cur, x) /\ UNCHANGED <<m, open>> /\ Log(op, <<x>>, Len(m))
FinishKey == open /\ Len(m) < MaxKeys /\ m' = Append(m, cur) /\ cur' = << >> /\ UNCHANGED open /\ Log("finish_key", << >>, Len(m) + 1)
\* values of the current key that was not finished do not belong to any key: only closed when there are none
FinishMap == open /\ cur = << >> /\ open' = FALSE /\ UNCHANGED <<m, cur>> /\ Log("finish_map", << >>, Len(m))
Get(k) == ~open /\ k < Len(m) /\ UNCHANGED <<m, cur, open>> /\ Log("get", <<k>>, m[k + 1])
\* iterator arithmetic: from begin() + a, go forth d, back e
Walk(a, d, e) == /\ ~open /\ a + d < Len(m) /\ a + d - e >= 0 /\ m # << >>
                 /\ UNCHANGED <<m, cur, open>> /\ Log("walk", <<a, d, e>>, <<m[a + d + 1], m[a + d - e + 1], d - e, d >= e>>)
Reload == ~open /\ UNCHANGED <<m, cur, open>> /\ Log("reload", << >>, 0)
Copy == UNCHANGED <<m, cur, open>> /\ Log("copy", << >>, 0)
Restart == m' = << >> /\ cur' = << >> /\ open' = TRUE /\ Log("restart", << >>, 0)
Finish == /\ Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<m, cur, open, hist>>
EnumNext == (Len(hist) < Depth /\
   \/ Push("push", 1) \/ FinishKey \/ FinishMap
   \/ \E k \in 0..2 : Get(k) \/ (\E d \in 0..2, e \in 0..2 : Walk(k, d, e)) \/ Reload) \/ Finish
EnumSpec == Init /\ [][EnumNext]_vars
SimNext == IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, x \in {Pick(1..NV)}, a \in {Pick(0..MaxKeys)}, b \in {Pick(0..MaxKeys)}, c \in {Pick(0..MaxKeys)} :
    LET n == Len(m) IN
    IF open THEN
      CASE r <= 50 /\ Len(cur) < MaxLen -> Push(IF r % 2 = 0 THEN "push" ELSE "emplace", x)
        [] r <= 85 /\ n < MaxKeys -> FinishKey
        [] r <= 88 -> Copy
        [] OTHER -> IF cur = << >> THEN FinishMap ELSE IF n < MaxKeys THEN FinishKey ELSE Restart
    ELSE
      CASE n > 0 /\ r <= 40 -> Get(a % n)
        [] n > 0 /\ r <= 80 -> (LET p == a % n q == b % n lo == IF p < q THEN p ELSE q hi == IF p < q THEN q ELSE p IN Walk(lo, hi - lo, c % (hi + 1)))
        [] r <= 90 -> Reload
        [] r <= 96 -> Copy
        [] OTHER -> Restart
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
