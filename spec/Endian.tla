------------------------------- MODULE Endian -------------------------------
(* How integers are stored in big-endian images.  An integer of w bytes is the
   tuple of its bytes, most significant byte first.  Stored in a big-endian
   image these are the bytes in the order of their addresses, whatever holds
   the integer; loading gives the integer back; swapping reverses the tuple and
   swapping twice is the identity.  Offsets and sizes are integers as well: a
   sequence of n integers is stored as a size, an offset and the elements. *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils

CONSTANTS Depth, Dense
Widths == {1, 2, 4, 8}
Marks == {0, 1, 127, 128, 254, 255}
Grounds == {0, 85, 255}
Kinds == {"unsigned", "signed", "array", "pair", "optional", "variant", "tuple", "duration", "time_point", "strong", "unique", "vector", "large_vector", "map", "string"}
Fits(kind, w) == (kind = "string" => w \in {2, 4}) /\ (kind = "duration" => w # 1)

VARIABLES hist, done
vars == <<hist, done>>

Value(w, p, m, g) == [i \in 1..w |-> IF i = p THEN m ELSE g]
Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
(* the value as the sum of its bytes: most significant first *)
RECURSIVE Num(_)
Num(b) == IF b = << >> THEN 0 ELSE Num(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
Big(n, w) == [i \in 1..w |-> (n \div (CASE w - i = 0 -> 1 [] w - i = 1 -> 256 [] w - i = 2 -> 65536 [] OTHER -> 16777216)) % 256]
ASSUME \A n \in {0, 1, 255, 256, 257, 65535, 65536, 16909060} : Num(Big(n, 4)) = n
ASSUME \A w \in Widths : \A m \in Marks : \A g \in Grounds : \A p \in 1..w : Rev(Rev(Value(w, p, m, g))) = Value(w, p, m, g)

Log(op, args, obs) == hist' = Append(hist, <<op, args, obs>>) /\ UNCHANGED done
Init == hist = << >> /\ done = FALSE
(* bytes of the integer in the image; the integer after loading *)
Store(kind, w, b) == Log("store", <<kind, w, b>>, <<b, b>>)
Swap(w, b) == Log("swap", <<w, b>>, <<Rev(b), b>>)
(* n integers: the stored size, the stored elements, and all of them after loading *)
StoreSeq(kind, w, b, n) == Log("seq", <<kind, w, b, n>>, <<Big(n, 4), [i \in 1..n |-> b], [i \in 1..n |-> b]>>)
Step == \E w \in Widths : \E p \in 1..w : \E m \in Marks : \E g \in Grounds :
          /\ Dense \/ p \in {1, w}
          /\ \/ \E k \in {x \in Kinds : Fits(x, w)} : Store(k, w, Value(w, p, m, g))
             \/ Swap(w, Value(w, p, m, g))
             \/ \E n \in {0, 1, 2, 7, 256, 300} : \E k \in {"vector", "string"} : Fits(k, w) /\ (n > 7 => p = 1 /\ m = 128) /\ StoreSeq(k, w, Value(w, p, m, g), n)
Finish == Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED hist
Next == (Len(hist) < Depth /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == Len(hist) <= Depth
=============================================================================
