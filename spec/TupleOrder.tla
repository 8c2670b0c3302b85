----------------------------- MODULE TupleOrder -----------------------------
(* The order of tuples of every length: the first component in which two tuples
   differ decides.  All pairs over two values per component reach every pattern
   of smaller / equal / greater components. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen
VARIABLES n, a, b, done
vars == <<n, a, b, done>>
Diff(x, y) == {i \in DOMAIN x : x[i] # y[i]}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Less(x, y) == Diff(x, y) # {} /\ x[First(Diff(x, y))] < y[First(Diff(x, y))]
Init == n \in 1..MaxLen /\ a \in [1..n -> 1..2] /\ b \in [1..n -> 1..2] /\ done = FALSE
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED <<n, a, b>>
        /\ CSVWrite("%1$s", <<ToJson(<<<<"order", <<n, a, b>>, <<<<a = b, a # b, Less(a, b), Less(b, a), ~Less(b, a), ~Less(a, b)>>, a, b>>>>>>)>>, IOEnv.OUT)
Spec == Init /\ [][Emit]_vars
Total == (a = b) \/ (Less(a, b) # Less(b, a))
Strict == ~(Less(a, b) /\ Less(b, a)) /\ ~Less(a, a)
=============================================================================
