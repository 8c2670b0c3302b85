------------------------------- MODULE Strong -------------------------------
(* Arithmetic of fixed width integers (two's complement, results reduced to the
   width; divisions truncate): every operator on every pair of values. *)
EXTENDS Integers, Sequences, Bitwise, TLC, Json, CSV, IOUtils
CONSTANTS Types, Small   \* Small: number of values per type in addition to the limits; 0 = all values of 8 bit types
VARIABLES t, x, y, done
vars == <<t, x, y, done>>
Width == [u8 |-> 8, i8 |-> 8, u16 |-> 16, i16 |-> 16, i32 |-> 32, u32 |-> 32, u64 |-> 64, i64 |-> 64]
Signed(ty) == ty \in {"i8", "i16", "i32", "i64"}
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* values of the types of 32 bits and more stay so small that nothing overflows; unsigned results are then non-negative *)
Narrow(ty) == Width[ty] <= 16
Wrap(ty, v) == IF ~Narrow(ty) THEN v
               ELSE LET n == Pow2(Width[ty]) u == v % n IN IF Signed(ty) /\ u >= n \div 2 THEN u - n ELSE u
Bits(v) == IF v >= 0 THEN v ELSE v + 65536                       \* as 16 bit pattern (values of at least -32768)
Unbits(ty, b) == IF Narrow(ty) THEN Wrap(ty, b) ELSE IF Signed(ty) /\ b >= 32768 THEN b - 65536 ELSE b
Abs(v) == IF v < 0 THEN -v ELSE v
Div(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Lo(ty) == IF Signed(ty) THEN -Pow2(Width[ty] - 1) ELSE 0
Hi(ty) == IF Signed(ty) THEN Pow2(Width[ty] - 1) - 1 ELSE Pow2(Width[ty]) - 1
Vals(ty) == IF ~Narrow(ty) THEN (IF Signed(ty) THEN {-1000, -7, -1} ELSE {}) \cup {0, 1, 2, 5, 9, 1000, 12345}
            ELSE IF Width[ty] = 8 /\ Small = 0 THEN Lo(ty)..Hi(ty)
            ELSE {v \in {Lo(ty), Lo(ty) + 1, -77, -2, -1, 0, 1, 2, 3, 7, 100, 127, 128, 200, Hi(ty) \div 2, Hi(ty) - 1, Hi(ty)} : v >= Lo(ty) /\ v <= Hi(ty)}
Ok(v) == v                                                        \* marks operations that are always defined
No == -99999
MulOk == ~(~Signed(t) /\ Width[t] = 16 /\ x * 4 > 131070 /\ y > 16384)   \* the product of the promoted operands fits
Res == <<Wrap(t, x + y), IF Narrow(t) \/ Signed(t) \/ x >= y THEN Wrap(t, x - y) ELSE No,
         IF MulOk THEN Wrap(t, x * y) ELSE No, IF y = 0 THEN No ELSE Wrap(t, Div(x, y)),
         IF y \in 0..7 /\ x >= 0 /\ (Narrow(t) \/ x < 4096) THEN Wrap(t, x * Pow2(y)) ELSE No,
         IF y \in 0..7 /\ x >= 0 THEN x \div Pow2(y) ELSE No,
         Unbits(t, Bits(x) | Bits(y)), Unbits(t, Bits(x) & Bits(y)),
         Wrap(t, x + 1), IF Narrow(t) \/ Signed(t) \/ x > 0 THEN Wrap(t, x - 1) ELSE No,
         x = y, x # y, x < y, x > y, x <= y, x >= y>>
Init == t \in Types /\ x \in Vals(t) /\ y \in Vals(t) /\ done = FALSE
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED <<t, x, y>>
        /\ CSVWrite("%1$s", <<ToJson(<<<<t, <<x, y>>, Res>>>>)>>, IOEnv.OUT)
Spec == Init /\ [][Emit]_vars
InRange == Narrow(t) => \A k \in 1..10 : Res[k] = No \/ (Res[k] >= Lo(t) /\ Res[k] <= Hi(t))
Order == (x < y) = (y > x) /\ ((x <= y) = (x < y \/ x = y))
=============================================================================
