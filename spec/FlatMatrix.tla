---------------------------- MODULE FlatMatrix ----------------------------
(* Two dense matrices stored row by row.  Observed after every step:
   <<result, rows, columns, contents row by row (as a list of rows), rows and
   columns of the other matrix>>.  Changing the number of columns keeps the
   row-major sequence of entries, hence the rows when the columns stay. *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS NV, MaxDim, Depth
VARIABLES m, hist, done
vars == <<m, hist, done>>
Idx == 1..2
Dims == 0..MaxDim
Vals == 0..NV
Mat(r, c, x) == [r |-> r, c |-> c, e |-> [k \in 1..(r * c) |-> x]]
Rows(a) == [i \in 1..a.r |-> [j \in 1..a.c |-> a.e[(i - 1) * a.c + j]]]
Resized(a, r, c) == [r |-> r, c |-> c, e |-> [k \in 1..(r * c) |-> IF k <= Len(a.e) THEN a.e[k] ELSE 0]]
Init == m = [i \in Idx |-> Mat(0, 0, 0)] /\ hist = <<>> /\ done = FALSE
Log(op, args, i, res) == /\ hist' = Append(hist, <<op, args, <<res, m'[i].r, m'[i].c, Rows(m'[i]), m'[3 - i].r, m'[3 - i].c>>>>) /\ UNCHANGED done
Upd(i, a) == m' = [m EXCEPT ![i] = a]
Same == UNCHANGED m
Put(a, p, q, x) == [a EXCEPT !.e[p * a.c + q + 1] = x]

Make(i, r, c, x) == Upd(i, Mat(r, c, x)) /\ Log("make", <<i, r, c, x>>, i, 0)
MakeDefault(i, r, c) == Upd(i, Mat(r, c, 0)) /\ Log("make_default", <<i, r, c>>, i, 0)
Resize(i, r, c) == Upd(i, Resized(m[i], r, c)) /\ Log("resize", <<i, r, c>>, i, 0)
AddRows(i, n) == m[i].r + n <= MaxDim /\ Upd(i, Resized(m[i], m[i].r + n, m[i].c)) /\ Log("resize", <<i, m[i].r + n, m[i].c>>, i, 0)
Reset(i, x) == Upd(i, Mat(m[i].r, m[i].c, x)) /\ Log("reset", <<i, x>>, i, 0)
Write(op, i, p, q, x) == p < m[i].r /\ q < m[i].c /\ Upd(i, Put(m[i], p, q, x)) /\ Log(op, <<i, p, q, x>>, i, x)
FillRow(i, p, x) == p < m[i].r /\ Upd(i, [m[i] EXCEPT !.e = [k \in 1..(m[i].r * m[i].c) |-> IF (k - 1) \div m[i].c = p THEN x ELSE m[i].e[k]]]) /\ Log("fill_row", <<i, p, x>>, i, 0)
At(op, i, p) == Same /\ Log(op, <<i, p>>, i, IF p < m[i].r THEN Rows(m[i])[p + 1] ELSE <<-1>>)
CopyAssign(i) == Upd(i, m[3 - i]) /\ Log("copy_assign", <<i>>, i, 0)
CopyConstruct(i) == Same /\ Log("copy_construct", <<i>>, i, 0)
MoveAssign(i) == m' = [x \in Idx |-> IF x = i THEN m[3 - i] ELSE Mat(0, 0, 0)] /\ Log("move_assign", <<i>>, i, 0)
MoveConstruct(i) == Same /\ Log("move_construct", <<i>>, i, 0)
Swap(i) == m' = [x \in Idx |-> m[3 - x]] /\ Log("swap", <<i>>, i, 0)
Reload(i) == Same /\ Log("reload", <<i>>, i, 0)

Finish == Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<m, hist>>
Pick(S) == RandomElement(S)
Step == \E i \in {Pick(Idx)} : \E k \in {Pick(1..100)} : \E r \in {Pick(Dims)} : \E c \in {Pick(Dims)} : \E x \in {Pick(Vals)} :
  CASE k <= 8 -> Make(i, r, c, x)
    [] k <= 10 -> MakeDefault(i, r, c)
    [] k <= 16 -> Resize(i, r, c)
    [] k <= 22 -> IF m[i].r < MaxDim THEN AddRows(i, 1) ELSE Resize(i, r, m[i].c)
    [] k <= 25 -> Resize(i, r, m[i].c)
    [] k <= 28 -> Reset(i, x)
    [] k <= 58 -> IF m[i].r * m[i].c = 0 THEN At("at", i, r)
                  ELSE \E p \in {Pick(0..(m[i].r - 1))} : \E q \in {Pick(0..(m[i].c - 1))} : Write(CASE k <= 38 -> "write" [] k <= 48 -> "write_call" [] OTHER -> "write_at", i, p, q, x)
    [] k <= 64 -> IF m[i].r = 0 THEN At("at_const", i, r) ELSE (\E p \in {Pick(0..(m[i].r - 1))} : FillRow(i, p, x))
    [] k <= 70 -> At("at", i, r)
    [] k <= 76 -> (\E p \in {Pick(0..(MaxDim + 2))} : At("at_const", i, p))
    [] k <= 80 -> CopyAssign(i)
    [] k <= 83 -> CopyConstruct(i)
    [] k <= 86 -> MoveAssign(i)
    [] k <= 89 -> MoveConstruct(i)
    [] k <= 93 -> Swap(i)
    [] OTHER -> Reload(i)
SimSpec == Init /\ [][(Len(hist) < Depth /\ Step) \/ Finish]_vars

(* exhaustive exploration: every operation from every small matrix *)
Next == \E i \in Idx : \E r \in Dims, c \in Dims, x \in Vals :
  \/ Make(i, r, c, x) \/ Resize(i, r, c) \/ (r = 0 /\ c = 0 /\ Reset(i, x)) \/ Write("write", i, r, c, x)
  \/ (x = 0 /\ c = 0 /\ At("at", i, r)) \/ (r = 0 /\ c = 0 /\ x = 0 /\ (CopyAssign(i) \/ MoveAssign(i) \/ Swap(i) \/ Reload(i)))
EnumSpec == Init /\ [][(Len(hist) < Depth /\ Next) \/ Finish]_vars
Sized == \A i \in Idx : Len(m[i].e) = m[i].r * m[i].c
(* every cell has an entry of its own, none lies outside *)
Distinct == \A i \in Idx : \A p, p2 \in 0..(m[i].r - 1), q, q2 \in 0..(m[i].c - 1) :
              /\ p * m[i].c + q + 1 \in 1..Len(m[i].e)
              /\ (p * m[i].c + q = p2 * m[i].c + q2) => (p = p2 /\ q = q2)
=============================================================================
