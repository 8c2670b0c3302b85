---------------------------- MODULE SwissTable ----------------------------
(* Design of the open-addressing hash table: control slots (empty, deleted,
   full), group probing of width W with mirrored first slots, tombstones,
   growth budget and doubling.  It refines a plain map: `m` is the abstract
   map updated in lockstep and the invariants tie the two together.
   W = 8 is the real width; the exhaustive configuration uses W = 4. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS W, NK, NV, MaxCap, HashKind, Depth, Phase, Rec

Keys == 1..NK
Vals == 1..NV
EMPTY == 0
DELETED == -1
END == -2

VARIABLES slots, cap, gl, m, hist, done
vars == <<slots, cap, gl, m, hist, done>>

(* Home position of a key; the harness gives the key exactly this hash. *)
Home(k) == CASE HashKind = "same"    -> 5
             [] HashKind = "two"     -> IF k % 2 = 0 THEN 3 ELSE 4
             [] HashKind = "seq"     -> k
             [] HashKind = "stride"  -> k * W
             [] HashKind = "spread"  -> (k * 37) % 61
             [] OTHER                -> (k * k) % 13

Growth(c) == IF c = W - 1 THEN c - 1 ELSE c - (c \div W)
Mod(a, c) == a % (c + 1)                       \* a & capacity

Byte(s, c, p) ==
  IF p < c THEN s[p]
  ELSE IF p = c THEN END
  ELSE LET j == p - c - 1 IN IF j < c /\ j < W THEN s[j] ELSE EMPTY

GroupAt(s, c, p, P(_)) == {i \in 0..(W - 1) : P(Byte(s, c, p + i))}
IsEmpty(b) == b = EMPTY
IsFree(b) == b = EMPTY \/ b = DELETED
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* Probe sequence: triangular steps of W; `n` bounds the search (termination is an invariant). *)
RECURSIVE FindFrom(_, _, _, _, _, _)
FindFrom(s, c, k, off, idx, n) ==
  LET IsK(b) == b = k
      hit == GroupAt(s, c, off, IsK)
  IN IF hit # {} THEN Mod(off + MinOf(hit), c)    \* may be the END slot or a mirror of the slot
     ELSE IF GroupAt(s, c, off, IsEmpty) # {} THEN -1
     ELSE IF n = 0 THEN -2
     ELSE FindFrom(s, c, k, Mod(off + idx + W, c), idx + W, n - 1)
Find(s, c, k) == IF c = 0 THEN -1 ELSE FindFrom(s, c, k, Mod(Home(k), c), 0, c + 1)

RECURSIVE FreeFrom(_, _, _, _, _)
FreeFrom(s, c, off, idx, n) ==
  LET fr == GroupAt(s, c, off, IsFree)
  IN IF fr # {} THEN Mod(off + MinOf(fr), c)
     ELSE IF n = 0 THEN -2
     ELSE FreeFrom(s, c, Mod(off + idx + W, c), idx + W, n - 1)
FirstFree(s, c, k) == FreeFrom(s, c, Mod(Home(k), c), 0, c + 1)

WasNeverFull(s, c, i) ==
  LET before == GroupAt(s, c, Mod(i - W, c), IsEmpty)
      after  == GroupAt(s, c, i, IsEmpty)
  IN before # {} /\ after # {} /\ MinOf(after) + (W - 1 - MaxOf(before)) < W

RECURSIVE Reinsert(_, _, _, _)
Reinsert(s, c, old, i) ==
  IF i \notin DOMAIN old THEN s
  ELSE IF old[i] <= 0 THEN Reinsert(s, c, old, i + 1)
  ELSE Reinsert([s EXCEPT ![FirstFree(s, c, old[i])] = old[i]], c, old, i + 1)

Full(s) == {i \in DOMAIN s : s[i] > 0}
Deleted(s) == {i \in DOMAIN s : s[i] = DELETED}
Resized(s, c) == Reinsert([i \in 0..(c - 1) |-> EMPTY], c, s, 0)

Arr(f) == [k \in Keys |-> IF k \in DOMAIN f THEN f[k] ELSE 0]
Log(op, args, res) ==
  /\ hist' = IF Rec THEN Append(hist, <<op, args, <<res, Arr(m'), Cardinality(DOMAIN m'), 0>>>>) ELSE hist
  /\ UNCHANGED done

Init == /\ slots = << >> /\ cap = 0 /\ gl = 0 /\ m = << >> /\ hist = << >> /\ done = FALSE

Insert(k, v) ==
  LET at == Find(slots, cap, k) IN
  IF at >= 0
  THEN UNCHANGED <<slots, cap, gl, m>> /\ Log("insert", <<1, k, v>>, FALSE)
  ELSE LET t0   == IF cap = 0 THEN 0 ELSE FirstFree(slots, cap, k)
           grow == gl = 0 /\ (cap = 0 \/ t0 \notin DOMAIN slots \/ slots[t0] # DELETED)
           c2   == IF grow THEN 2 * cap + 1 ELSE cap
           s2   == IF grow THEN Resized(slots, c2) ELSE slots
           g2   == IF grow THEN Growth(c2) - Cardinality(Full(s2)) ELSE gl
           t    == FirstFree(s2, c2, k)
       IN /\ c2 <= MaxCap
          /\ cap' = c2
          /\ slots' = [s2 EXCEPT ![t] = k]
          /\ gl' = g2 - (IF s2[t] = EMPTY THEN 1 ELSE 0)
          /\ m' = (k :> v) @@ m
          /\ Log("insert", <<1, k, v>>, TRUE)

Erase(k) ==
  LET at == Find(slots, cap, k) IN
  IF at < 0
  THEN UNCHANGED <<slots, cap, gl, m>> /\ Log("erase", <<1, k>>, 0)
  ELSE LET wnf == WasNeverFull(slots, cap, at) IN
       /\ slots' = [slots EXCEPT ![at] = IF wnf THEN EMPTY ELSE DELETED]
       /\ gl' = gl + (IF wnf THEN 1 ELSE 0)
       /\ m' = [x \in DOMAIN m \ {k} |-> m[x]]
       /\ UNCHANGED cap
       /\ Log("erase", <<1, k>>, 1)

Rehash ==
  /\ cap > 0
  /\ slots' = Resized(slots, cap)
  /\ gl' = Growth(cap) - Cardinality(Full(slots))
  /\ UNCHANGED <<cap, m>>
  /\ Log("rehash", <<1>>, 0)

Clear == /\ slots' = << >> /\ cap' = 0 /\ gl' = 0 /\ m' = << >> /\ Log("clear", <<1>>, 0)

Lookup(k) == UNCHANGED <<slots, cap, gl, m>> /\ Log("find", <<1, k>>, IF k \in DOMAIN m THEN m[k] ELSE -1)

(* the image written now is accepted by the checked reader *)
RoundTrip == UNCHANGED <<slots, cap, gl, m>> /\ Log("round_trip", <<1>>, 0)

Next == \/ \E k \in Keys, v \in Vals : Insert(k, v)
        \/ \E k \in Keys : Erase(k)
        \/ Rehash \/ Clear
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties *)
Refines   == /\ {slots[i] : i \in Full(slots)} = DOMAIN m
             /\ Cardinality(Full(slots)) = Cardinality(DOMAIN m)
Reachable == \A k \in Keys : LET at == Find(slots, cap, k) IN
                /\ at # -2                                     \* every search terminates
                /\ (k \in DOMAIN m) <=> (at >= 0 /\ slots[at] = k)
Budget    == cap > 0 => gl + Cardinality(Full(slots)) + Cardinality(Deleted(slots)) = Growth(cap) /\ gl >= 0
PowerCap  == \E e \in 0..10 : cap = 2^e - 1
AlwaysRoom == cap > 0 => \A p \in 0..cap : \E q \in 0..(cap + W) : Byte(slots, cap, q) = EMPTY
View == <<slots, cap, gl, m>>

(* The admission rule found in the original reader; it is NOT implied (see DESIGN.md, finding on growth budget). *)
WnfEmpty == {i \in DOMAIN slots : slots[i] = EMPTY /\ WasNeverFull(slots, cap, i)}
OldReaderAccepts == LET a == Growth(cap) - Cardinality(Full(slots))
                        b == Cardinality(WnfEmpty) IN (IF a < b THEN a ELSE b) <= gl

Finish == /\ Len(hist) = Depth /\ ~done
          /\ CSVWrite("%1$s", <<ToJson(<< <<"hash", <<HashKind>>, "ok">> >> \o hist)>>, IOEnv.OUT)
          /\ done' = TRUE /\ UNCHANGED <<slots, cap, gl, m, hist>>
Growing == (Len(hist) \div Phase) % 2 = 0
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {RandomElement(1..100)}, k \in {RandomElement(Keys)}, v \in {RandomElement(Vals)},
          g \in {IF Growing THEN 70 ELSE 35} :
       CASE r <= g  -> Insert(k, v)
         [] r <= 92 -> Erase(k)
         [] r <= 94 -> Lookup(k)
         [] r <= 95 -> IF cap > 0 THEN Rehash ELSE Lookup(k)
         [] OTHER   -> RoundTrip
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
