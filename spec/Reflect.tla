------------------------------- MODULE Reflect -------------------------------
(* Reflection over structs.  Two objects of one struct hold one small value (a
   code) per member, in declaration order.  Every view of an object (tuple,
   pointers, visitors; of constant and other objects) covers these members once
   and in order and is the object itself: a value written through it is the
   member's value.  Comparison is lexicographic. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Mode, Depth          \* Mode: "pairs" (all values of small structs) or "history"
Shapes == ndJsonDeserialize(IOEnv.SHAPES)

Opaque == {"uptr", "map", "raw", "mo"}
Size(k) == CASE k = "empty" -> 1 [] k = "flag" -> 2 [] OTHER -> 3
Printed == {"i32", "u64", "f64", "enum", "str", "sstr"}
Texts == <<"a", "ab", "b">>
Text(k, c) == IF k \in {"str", "sstr"} THEN Texts[c + 1] ELSE ToString(c)
Views == {"tuple", "const tuple", "pointers", "const pointers", "field", "const field", "ptr field", "const ptr field", "pointee", "const pointee"}
Writable == {"name", "tuple", "pointers", "field", "ptr field", "pointee"}

VARIABLES shape, a, b, hist, done
vars == <<shape, a, b, hist, done>>
kinds == Shapes[shape].kinds
style == Shapes[shape].style
n == Len(kinds)
Comparable == style # "plain" /\ \A i \in 1..n : kinds[i] \notin Opaque
Printable == style # "plain" /\ \A i \in 1..n : kinds[i] \in Printed
Values == [1..n -> 0..2]
Legal(v) == \A i \in 1..n : v[i] < Size(kinds[i])

RECURSIVE Less(_, _, _)
Less(x, y, i) == i <= n /\ (x[i] < y[i] \/ (x[i] = y[i] /\ Less(x, y, i + 1)))
Order(x, y) == LET l == Less(x, y, 1) g == Less(y, x, 1) IN <<x = y, x # y, l, ~g, g, ~l>>
RECURSIVE Join(_, _)
Join(x, i) == IF i > n THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o "m" \o ToString(i) \o "=" \o Text(kinds[i], x[i]) \o Join(x, i + 1)

Log(op, args, obs) == hist' = Append(hist, <<op, args, obs>>) /\ UNCHANGED <<shape, done>>
Zero(s) == [i \in 1..Len(Shapes[s].kinds) |-> 0]
Init == shape \in 1..Len(Shapes) /\ a = Zero(shape) /\ b = Zero(shape) /\ hist = <<<<"struct", <<Shapes[shape].name>>, n>>>> /\ done = FALSE

Same == UNCHANGED <<a, b>>
Compare == Same /\ Log("compare", << >>, Order(a, b))
Self == Same /\ Log("self", << >>, Order(a, a))
Visit(o, view) == Same /\ Log("visit", <<o, view>>, IF o = 1 THEN a ELSE b)
Nothing(view) == Same /\ Log("nothing", <<view>>, << >>)
Index == Same /\ Log("index", << >>, [i \in 1..n |-> i - 1])
Count == Same /\ Log("count", << >>, n)
Show == Same /\ Log("print", <<1>>, "{" \o Join(a, 1) \o "}")
Put(o, i, c, view) ==
  LET v == [IF o = 1 THEN a ELSE b EXCEPT ![i] = c] IN
  (IF o = 1 THEN a' = v /\ UNCHANGED b ELSE b' = v /\ UNCHANGED a) /\ Log("put", <<o, i - 1, c, view>>, v)
Load(x, y) == a' = x /\ b' = y /\ Log("load", <<x, y>>, Order(x, y))
Copy == b' = a /\ UNCHANGED a /\ Log("copy", << >>, a)

PairsStep ==
  \/ \E x, y \in Values : Legal(x) /\ Legal(y) /\ Comparable /\ n <= 2 /\ Load(x, y)
  \/ \E view \in Views : Visit(1, view)
  \/ Index \/ Count \/ \E view \in {"field", "ptr field"} : Nothing(view)
R(S) == RandomElement(S)
HistoryStep ==
  \E k \in {R(1..20)} : \E o \in {R(1..2)} : \E i \in {IF n = 0 THEN 0 ELSE R(1..n)} : \E c \in {IF n = 0 THEN 0 ELSE R(0..(Size(kinds[i]) - 1))} :
    CASE k \in 1..7 /\ n > 0 -> \E w \in {R(Writable)} : Put(o, i, c, w)
      [] k \in 8..11 /\ n > 0 -> \E w \in {R(Writable)} : Put(3 - o, i, (IF o = 1 THEN a ELSE b)[i], w)
      [] k \in 12..14 /\ Comparable -> Compare
      [] k = 15 /\ Comparable -> IF o = 1 THEN Self ELSE Copy
      [] k = 16 -> Index
      [] k = 17 /\ Printable -> Show
      [] k = 18 -> Count
      [] OTHER -> \E v \in {R(Views)} : Visit(o, v)

Step == IF Mode = "pairs" THEN PairsStep ELSE HistoryStep
Next == \/ Len(hist) < Depth /\ Step
        \/ Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<shape, a, b, hist>>
Spec == Init /\ [][Next]_vars

Total == Comparable => LET r == Order(a, b) IN /\ Cardinality({i \in {1, 3, 5} : r[i]}) = 1 /\ r[2] = ~r[1] /\ r[4] = (r[3] \/ r[1]) /\ r[6] = (r[5] \/ r[1])
=============================================================================
