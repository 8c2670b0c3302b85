---------------------------- MODULE VariantIndex ----------------------------
(* How many alternatives a variant may have: every one of n alternatives can be
   held and is told apart from "no value" and from every other alternative,
   also where the number of alternatives meets the limits of the index type
   and of the dispatch blocks.  Alternatives are 0-based, NONE = no value. *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils

CONSTANTS Depth
Ns == {1, 2, 15, 16, 17, 31, 32, 33, 255, 256}
Block == 16
Byte == 256
NONE == 65535
VARIABLES n, held, hist, done
vars == <<n, held, hist, done>>

(* the width of the index: one byte as long as a byte can hold every alternative and "no value" *)
Width(k) == IF k <= Byte - 1 THEN 1 ELSE 2
NoValue(k) == IF Width(k) = 1 THEN Byte - 1 ELSE Byte * Byte - 1
ASSUME \A k \in Ns : \A i \in 0..(k - 1) : i # NoValue(k) /\ i < (IF Width(k) = 1 THEN Byte ELSE Byte * Byte)

Alts == {i \in {0, 1, 14, 15, 16, 17, 31, 32, 253, 254, 255, 256, n - 2, n - 1} : i >= 0 /\ i < n}
Init == n \in Ns /\ held = NONE /\ hist = << >> /\ done = FALSE
Log(op, args) == hist' = Append(hist, <<op, <<n>> \o args, <<held' # NONE, held'>>>>) /\ UNCHANGED <<n, done>>
Put(i) == held' = i /\ Log("put", <<i>>)
Clear == held' = NONE /\ Log("clear", << >>)
MoveOn == UNCHANGED held /\ Log("move", << >>)
Visit == UNCHANGED held /\ Log("visit", << >>)
Finish == Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<n, held, hist>>
Next == (Len(hist) < Depth /\ ((\E i \in Alts : Put(i)) \/ Clear \/ MoveOn \/ Visit)) \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == held \in {NONE} \union (0..(n - 1))
=============================================================================
