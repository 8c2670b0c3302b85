------------------------------- MODULE Equal -------------------------------
(* Equality, order and hashing as functions of abstract values.
   A case is a kind of values and two values; the observation is whether they are equal and which is the smaller one, with equal hashes for equal
   values, whatever type, storage or history represents them.
   Numbers are codes in ascending order, texts sequences of bytes, sequences of numbers, structs of a number, a text and a sequence,
   choices (alternative, payload), sets and mappings of numbers, bit sequences (lowest bit first). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Numbers,     \* codes 0 .. Numbers
          Alphabet,    \* bytes of short texts
          Lengths,     \* lengths of longer texts
          SeqLen, Bits, Keys, BitSizes, Kinds
VARIABLES c, a, b, out
vars == <<c, a, b, out>>

N == 0 .. Numbers
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Fill(n, x) == [k \in 1 .. n |-> IF k = n THEN x ELSE 97]
Text == Seqs(Alphabet, 2) \cup {Fill(n, x) : n \in Lengths, x \in {97, 98, 255}}
Small == {<< >>, <<97>>, Fill(20, 98)}
Seq3 == Seqs(0 .. 2, SeqLen)
Struct == {<<n, t, s>> : n \in {0, 3}, t \in Small, s \in {<< >>, <<1>>, <<1, 2>>}}
Choice == {<<0, n>> : n \in {0, 3}} \cup {<<1, t>> : t \in Small} \cup {<<2, s>> : s \in {<< >>, <<1>>, <<2, 1>>}} \cup {<<3, 0>>}
Opt == {<< >>} \cup {<<t>> : t \in Small}
Sets == SUBSET (1 .. Keys)
Maps == UNION {[S -> 0 .. 1] : S \in SUBSET (1 .. Keys)}
BitSeqs == UNION {{[k \in 1 .. n |-> IF k \in S THEN 1 ELSE 0] : S \in SUBSET ({1, 2, n - 1, n} \cap (1 .. n))} : n \in BitSizes}
ToSeq(S) == LET f[T \in SUBSET S] == IF T = {} THEN << >> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o f[T \ {x}]
            IN f[S]
MapSeq(m) == [k \in 1 .. Cardinality(DOMAIN m) |-> LET x == ToSeq(DOMAIN m)[k] IN <<x, m[x]>>]

\* ---- order
RECURSIVE LexLt(_, _)
LexLt(x, y) == IF y = << >> THEN FALSE ELSE IF x = << >> THEN TRUE ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE LexLt(Tail(x), Tail(y))
Rev(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]
StructLt(x, y) == \/ x[1] < y[1]
                  \/ x[1] = y[1] /\ LexLt(x[2], y[2])
                  \/ x[1] = y[1] /\ x[2] = y[2] /\ LexLt(x[3], y[3])
ChoiceLt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ IF x[1] \in {0, 3} THEN x[2] < y[2] ELSE LexLt(x[2], y[2]))
OptLt(x, y) == y # << >> /\ (x = << >> \/ LexLt(x[1], y[1]))
Cmp(x, y, lt) == IF x = y THEN 0 ELSE IF lt THEN -1 ELSE 1

Values(k) == CASE k = "number" -> N [] k = "text" -> Text [] k = "seq" -> Seq3 [] k = "struct" -> Struct [] k = "choice" -> Choice
               [] k = "opt" -> Opt [] k = "set" -> {ToSeq(S) : S \in Sets} [] k = "map" -> {MapSeq(m) : m \in Maps} [] k = "bits" -> BitSeqs
               [] k = "texts" -> Seqs(Small, 2)
               [] OTHER -> {<<n, t>> : n \in {0, 1, 4}, t \in Small}   \* pairs
TextsLt(x, y) == LET f[i \in 1 .. 3] == IF i > Len(y) THEN FALSE ELSE IF i > Len(x) THEN TRUE ELSE IF x[i] # y[i] THEN LexLt(x[i], y[i]) ELSE f[i + 1] IN f[1]
\* order of two values; 2: different and not ordered
Order(k, x, y) == CASE k = "number" -> Cmp(x, y, x < y)
                    [] k = "text" -> Cmp(x, y, LexLt(x, y))
                    [] k = "seq" -> Cmp(x, y, LexLt(x, y))
                    [] k = "struct" -> Cmp(x, y, StructLt(x, y))
                    [] k = "choice" -> IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1) ELSE Cmp(x, y, ChoiceLt(x, y))
                    [] k = "opt" -> Cmp(x, y, OptLt(x, y))
                    [] k = "texts" -> Cmp(x, y, TextsLt(x, y))
                    [] k \in {"set", "map"} -> IF x = y THEN 0 ELSE 2
                    [] k = "bits" -> IF Len(x) # Len(y) THEN 2 ELSE Cmp(x, y, LexLt(Rev(x), Rev(y)))
                    [] OTHER -> Cmp(x, y, x[1] < y[1] \/ (x[1] = y[1] /\ LexLt(x[2], y[2])))

Init == c = "" /\ a = << >> /\ b = << >> /\ out = ""
Case == c = "" /\ \E k \in Kinds : \E x \in Values(k) : \E y \in Values(k) :
          /\ c' = k /\ a' = x /\ b' = y
          /\ out' = ToJson(<<<<k, <<x, y>>, Order(k, x, y)>>>>)
Emit == c # "" /\ out # "" /\ CSVWrite("%1$s", <<out>>, IOEnv.OUT) /\ out' = "" /\ UNCHANGED <<c, a, b>>
Spec == Init /\ [][Case \/ Emit]_vars

\* the order is a strict total order on the ordered kinds and agrees with equality
Laws == c # "" /\ out # "" => LET o == Order(c, a, b) r == Order(c, b, a) IN
          /\ (o = 0) = (a = b)
          /\ o \in {-1, 1} => r = -o
          /\ o \in {0, 2} => r = o
=============================================================================
