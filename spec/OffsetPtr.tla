----------------------------- MODULE OffsetPtr -----------------------------
(* Relative pointers inside a movable region: NP typed cells, NQ untyped cells, M targets (and the position past the last one),
   and a growing sequence of typed pointers outside the region.
   A typed cell is 0 (null) or 1 + position; an untyped cell may also refer to a cell: M+1+i is typed cell i, M+1+NP+i untyped cell i.
   Moving the whole region changes no value: pointers are relative. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NP, NQ, M, V, MaxW, Depth, Random
VARIABLES p, q, v, w, hist, done
vars == <<p, q, v, w, hist, done>>
I == 1 .. NP
K == 1 .. NQ
Pos == 0 .. M                   \* M is past the end
Typed == 0 .. M + 1
Untyped == 0 .. M + 1 + NP + NQ
Init == p = [i \in I |-> 0] /\ q = [k \in K |-> 0] /\ v = [m \in 1 .. M |-> 0] /\ w = << >> /\ hist = << >> /\ done = FALSE
View == <<p, q, v, w>>
Q(S) == IF Random THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Log(op, args, res) == hist' = Append(hist, <<op, args, <<res, View'>>>>) /\ UNCHANGED done
Same == UNCHANGED <<p, q, v, w>>
SetP(i, x) == p' = [p EXCEPT ![i] = x] /\ UNCHANGED <<q, v, w>>
SetQ(k, x) == q' = [q EXCEPT ![k] = x] /\ UNCHANGED <<p, v, w>>
SetW(s) == w' = s /\ UNCHANGED <<p, q, v>>

Nulls == {"null", "null_ptr", "null_default", "null_typed", "null_construct"}
Copies == {"copy", "move", "copy_construct", "move_construct", "via_raw", "via_temporary", "via_const"}
TypedOps(i) ==
  \/ \E m \in Q(Pos), op \in Q({"set", "construct"}) : SetP(i, m + 1) /\ Log(op, <<i, m>>, 0)
  \/ \E op \in Q(Nulls) : SetP(i, 0) /\ Log(op, <<i>>, 0)
  \/ \E j \in Q(I), op \in Q(Copies) : SetP(i, p[j]) /\ Log(op, <<i, j>>, 0)
  \/ \E j \in Q(I) : p' = [p EXCEPT ![i] = p[j], ![j] = p[i]] /\ UNCHANGED <<q, v, w>> /\ Log("swap", <<i, j>>, 0)
  \/ p' = [k \in I |-> p[NP + 1 - k]] /\ UNCHANGED <<q, v, w>> /\ Log("reverse", << >>, 0)
  \/ \E m \in Q(1 .. NP) : p' = [k \in I |-> p[((k - 1 + m) % NP) + 1]] /\ UNCHANGED <<q, v, w>> /\ Log("rotate", <<m>>, 0)
  \* moving by one: the expression yields the new or the old position
  \/ p[i] \in 1 .. M /\ \E op \in Q({"pre_inc", "post_inc"}) : SetP(i, p[i] + 1) /\ Log(op, <<i>>, IF op = "pre_inc" THEN p[i] + 1 ELSE p[i])
  \/ p[i] \in 2 .. M + 1 /\ \E op \in Q({"pre_dec", "post_dec"}) : SetP(i, p[i] - 1) /\ Log(op, <<i>>, IF op = "pre_dec" THEN p[i] - 1 ELSE p[i])
  \* displaced positions
  \/ p[i] # 0 /\ \E x \in Q(1 .. M + 1), j \in Q(I), op \in Q({"plus", "plus_strong"}) :
       IF x >= p[i] THEN SetP(j, x) /\ Log(op, <<i, x - p[i], j>>, x) ELSE SetP(j, x) /\ Log(IF op = "plus" THEN "minus" ELSE "minus_strong", <<i, p[i] - x, j>>, x)
  \/ p[i] # 0 /\ \E x \in Q(1 .. M + 1) : x >= p[i] /\ x <= M /\ Same /\ Log("index", <<i, x - p[i]>>, v[x])
  \/ p[i] \in 1 .. M /\ \E op \in Q({"read", "arrow"}) : Same /\ Log(op, <<i>>, v[p[i]])
  \/ p[i] \in 1 .. M /\ \E x \in Q(0 .. V), op \in Q({"write", "write_index"}) : v' = [v EXCEPT ![p[i]] = x] /\ UNCHANGED <<p, q, w>> /\ Log(op, <<i, x>>, 0)
  \/ \E j \in Q(I) : Same /\ Log("compare", <<i, j>>, IF p[i] = p[j] THEN "eq" ELSE IF p[i] = 0 \/ p[j] = 0 THEN "ne" ELSE IF p[i] < p[j] THEN "lt" ELSE "gt")
  \/ \E m \in Q(Typed) : Same /\ Log("compare_raw", <<i, m>>, p[i] = m)
  \/ Same /\ Log("is_null", <<i>>, p[i] = 0)
  \/ p[i] # 0 /\ \E m \in Q(Pos) : Same /\ Log("distance", <<i, m>>, m + 1 - p[i])
UntypedOps(k) ==
  \/ \E x \in Q(Untyped), op \in Q({"q_set", "q_construct"}) : SetQ(k, x) /\ Log(op, <<k, x>>, 0)
  \/ \E op \in Q({"q_null", "q_null_construct", "q_null_ptr"}) : SetQ(k, 0) /\ Log(op, <<k>>, 0)
  \/ \E j \in Q(K), op \in Q({"q_copy", "q_move", "q_copy_construct", "q_move_construct"}) : SetQ(k, q[j]) /\ Log(op, <<k, j>>, 0)
  \/ \E i \in Q(I) : SetQ(k, p[i]) /\ Log("q_from", <<k, i>>, 0)
  \/ q[k] <= M + 1 /\ \E i \in Q(I) : SetP(i, q[k]) /\ Log("q_cast", <<k, i>>, 0)
  \* through an untyped pointer to a typed cell
  \/ q[k] > M + 1 /\ q[k] <= M + 1 + NP /\ \E x \in Q(Typed) : SetP(q[k] - M - 1, x) /\ Log("q_through", <<k, x>>, 0)
  \/ Same /\ Log("q_is_null", <<k>>, q[k] = 0)
Ins(s, n, x) == SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
Cut(s, n) == SubSeq(s, 1, n) \o SubSeq(s, n + 2, Len(s))
VectorOps ==
  \/ Len(w) < MaxW /\ \E i \in Q(I), op \in Q({"w_push", "w_emplace"}) : SetW(Append(w, p[i])) /\ Log(op, <<i>>, 0)
  \/ Len(w) < MaxW /\ Len(w) > 0 /\ \E n \in Q(0 .. Len(w) - 1) : SetW(Append(w, w[n + 1])) /\ Log("w_push_own", <<n>>, 0)
  \/ Len(w) < MaxW /\ \E i \in Q(I), n \in Q(0 .. Len(w)) : SetW(Ins(w, n, p[i])) /\ Log("w_insert", <<n, i>>, 0)
  \/ Len(w) > 0 /\ \E n \in Q(0 .. Len(w) - 1) : SetW(Cut(w, n)) /\ Log("w_erase", <<n>>, 0)
  \/ Len(w) > 0 /\ \E n \in Q(0 .. Len(w) - 1), i \in Q(I) : SetP(i, w[n + 1]) /\ Log("w_get", <<n, i>>, 0)
  \/ Len(w) > 0 /\ \E n \in Q(0 .. Len(w) - 1), i \in Q(I) : SetW([w EXCEPT ![n + 1] = p[i]]) /\ Log("w_set", <<n, i>>, 0)
  \/ \E n \in Q(0 .. MaxW) : SetW(IF n <= Len(w) THEN SubSeq(w, 1, n) ELSE w \o [k \in 1 .. n - Len(w) |-> 0]) /\ Log("w_resize", <<n>>, 0)
  \/ \E op \in Q({"w_copy", "w_move", "w_copy_assign", "w_assign_range"}) : SetW(w) /\ Log(op, << >>, 0)
  \/ SetW(<< >>) /\ Log("w_clear", << >>, 0)
\* pointers outside the region do not move along with it
Relocate == \E op \in Q({"relocate", "relocate_overlapping", "relocate_file"}) : SetW(<< >>) /\ Log(op, << >>, 0)
Op == (\E i \in Q(I) : TypedOps(i)) \/ (\E k \in Q(K) : UntypedOps(k)) \/ VectorOps \/ Relocate
\* simulation: an enabled group at random
Pick == \E d \in {RandomElement(1 .. 20)} : CASE d <= 10 -> (\E i \in Q(I) : TypedOps(i)) [] d <= 14 -> (\E k \in Q(K) : UntypedOps(k)) [] d <= 18 -> VectorOps [] OTHER -> Relocate
Next == ~done /\ Len(hist) < Depth /\ (IF Random THEN Pick ELSE Op)
Finish == ~done /\ Len(hist) = Depth /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<p, q, v, w, hist>>
Spec == Init /\ [][Next \/ Finish]_vars

\* exhaustive: every operation in every state that two assignments of pointers can reach
Setup == \/ \E i \in I, m \in Typed : SetP(i, m) /\ Log(IF m = 0 THEN "null" ELSE "set", IF m = 0 THEN <<i>> ELSE <<i, m - 1>>, 0)
         \/ \E k \in K, x \in Untyped : SetQ(k, x) /\ Log("q_set", <<k, x>>, 0)
         \/ Len(w) < MaxW /\ \E i \in I : SetW(Append(w, p[i])) /\ Log("w_push", <<i>>, 0)
EnumNext == ~done /\ Len(hist) < Depth /\ (IF Len(hist) < Depth - 1 THEN Setup ELSE Op)
EnumSpec == Init /\ [][EnumNext \/ Finish]_vars

\* ---- design: the implementation stores the distance from the cell to its target; the region is at address base
Addr(x) == 100 * x                          \* distinct addresses: targets and cells of the region, x = 1..
CellAddr(i) == Addr(M + 1 + i)
Rep(i) == IF p[i] = 0 THEN -9999999 ELSE Addr(p[i]) - CellAddr(i)
\* a cell decoded at any displacement of the region yields the displaced target; distinct targets have distinct distances
Relative == \A i \in I : \A d \in {-12800, 0, 6400} : p[i] # 0 => (CellAddr(i) + d) + Rep(i) = Addr(p[i]) + d
TypeOK == /\ \A i \in I : p[i] \in Typed
          /\ \A k \in K : q[k] \in Untyped
          /\ Len(w) <= MaxW /\ \A n \in DOMAIN w : w[n] \in Typed
          /\ \A m \in DOMAIN v : v[m] \in 0 .. V
Abs == <<p, q, v, w>>
=============================================================================
