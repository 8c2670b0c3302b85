---------------------------- MODULE ReflectShapes ----------------------------
(* Shapes of the structs that reflection is tried on: how the struct declares its
   members (style) and the kind of each member, in declaration order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Plan, Big
Ordered == {"u8", "i32", "u64", "f64", "flag", "enum", "ptr", "chr", "str", "vec", "pair", "rec", "mem", "arr", "opt", "var", "tup", "strong", "empty", "sstr", "deep"}
Opaque == {"uptr", "map", "raw", "mo"}             \* not ordered, not all of them copyable
Kinds == Ordered \union Opaque
Styles == {"friend", "comparable", "members", "derived", "plain"}

VARIABLES style, kinds, done
vars == <<style, kinds, done>>
Shape(s, k) == style = s /\ kinds = k
Simple == <<"i32", "u8", "f64", "ptr", "u64">>
Cycle(n) == [i \in 1..n |-> Simple[1 + ((i * 7 + n) % 5)]]

Init ==
  /\ done = FALSE
  /\ CASE Plan = "arity" -> \E n \in 0..64 : kinds = Cycle(n) /\ style \in (IF n <= 6 THEN {"friend", "comparable", "members"} ELSE IF n % 16 = 1 \/ Big THEN {"friend", "members"} ELSE {"friend"})
       [] Plan = "single" -> \E k \in Kinds : \E s \in Styles : Shape(s, <<k>>)
       [] Plan = "double" -> \E k, l \in (IF Big THEN Kinds ELSE Ordered \ {"u8", "u64", "chr", "arr", "sstr", "strong", "tup", "var"}) : Shape(IF Big THEN "comparable" ELSE "friend", <<k, l>>)
       [] Plan = "random" -> style = "friend" /\ kinds = << >>
Pick == \E n \in {RandomElement(1..20)} : \E s \in {RandomElement(Styles)} : \E m \in {RandomElement(IF n <= 15 THEN 3..9 ELSE 10..64)} :
          /\ style' = s
          /\ kinds' = [i \in 1..m |-> RandomElement(IF n % 3 = 0 THEN Kinds ELSE Ordered)]
          /\ UNCHANGED done
Emit == ~done /\ CSVWrite("%1$s", <<ToJson(<<style, kinds>>)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<style, kinds>>
Next == IF Plan = "random" /\ kinds = << >> THEN Pick ELSE Emit
Spec == Init /\ [][Next]_vars
Sane == Len(kinds) <= 64
=============================================================================
