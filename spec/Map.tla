------------------------------- MODULE Map -------------------------------
(* Two finite maps over small integer keys and the public operations of a
   hash map on them.  `hist` records, for every step, the operation, its
   arguments and everything the caller may observe; behaviours are replayed
   against the real containers.  Moved-from maps are cleared by the replayer,
   so a move leaves the source empty here as well. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NK,      \* number of keys
          NV,      \* number of values
          Depth,   \* length of generated behaviours
          Phase    \* steps after which grow and shrink phases alternate

Keys == 1..NK
Vals == 1..NV
Idx  == 1..2
Other(i) == 3 - i

VARIABLES m, hist, done
vars == <<m, hist, done>>

Empty == << >>
Arr(f) == [k \in Keys |-> IF k \in DOMAIN f THEN f[k] ELSE 0]
Size(f) == Cardinality(DOMAIN f)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init == /\ m = [i \in Idx |-> Empty]
        /\ hist = << >>
        /\ done = FALSE

(* one observation: result, contents and size of the touched map, size of the other *)
Log(op, args, i, res) ==
  /\ hist' = Append(hist, <<op, args, <<res, Arr(m'[i]), Size(m'[i]), Size(m'[Other(i)])>>>>)
  /\ UNCHANGED done

Upd(i, f) == m' = [m EXCEPT ![i] = f]

Insert(op, i, k, v) ==                      \* insert, emplace: existing entries win
  /\ Upd(i, IF k \in DOMAIN m[i] THEN m[i] ELSE (k :> v) @@ m[i])
  /\ Log(op, <<i, k, v>>, i, k \notin DOMAIN m[i])
Put(i, k, v) ==                             \* m[k] = v
  /\ Upd(i, (k :> v) @@ m[i])
  /\ Log("put", <<i, k, v>>, i, v)
Touch(i, k) ==                              \* m[k]: default constructs a missing value
  /\ Upd(i, IF k \in DOMAIN m[i] THEN m[i] ELSE (k :> 0) @@ m[i])
  /\ k \in DOMAIN m[i]                      \* a zero value would be invisible in Arr
  /\ Log("touch", <<i, k>>, i, m[i][k])
Lookup(op, i, k) ==                         \* find, at, get, contains
  /\ UNCHANGED m
  /\ Log(op, <<i, k>>, i, IF k \in DOMAIN m[i] THEN m[i][k] ELSE -1)
Erase(op, i, k) ==                          \* by key
  /\ Upd(i, Without(m[i], k))
  /\ Log(op, <<i, k>>, i, IF k \in DOMAIN m[i] THEN 1 ELSE 0)
EraseParity(i, p) ==                        \* while iterating: collect then erase every key with parity p
  /\ Upd(i, [x \in {y \in DOMAIN m[i] : y % 2 # p} |-> m[i][x]])
  /\ Log("erase_if", <<i, p>>, i, Cardinality({y \in DOMAIN m[i] : y % 2 = p}))
Clear(i) == Upd(i, Empty) /\ Log("clear", <<i>>, i, 0)
Rehash(i) == UNCHANGED m /\ Log("rehash", <<i>>, i, 0)
Bulk(i, k, n, v) ==                         \* insert(first, last) of n consecutive keys
  LET ks == {x \in Keys : x >= k /\ x < k + n}
  IN /\ Upd(i, m[i] @@ [x \in ks |-> v])
     /\ Log("bulk", <<i, k, n, v>>, i, Cardinality(ks \ DOMAIN m[i]))
Make(i, k, n, v) ==                         \* assignment from a fresh map built from a list
  LET ks == {x \in Keys : x >= k /\ x < k + n}
  IN /\ Upd(i, [x \in ks |-> v])
     /\ Log("make", <<i, k, n, v>>, i, Cardinality(ks))
CopyAssign(i) == Upd(i, m[Other(i)]) /\ Log("copy_assign", <<i>>, i, TRUE)
CopyConstruct(i) == UNCHANGED m /\ Log("copy_construct", <<i>>, i, TRUE)
MoveAssign(i) ==
  /\ m' = [x \in Idx |-> IF x = i THEN m[Other(i)] ELSE Empty]
  /\ Log("move_assign", <<i>>, i, 0)
MoveConstruct(i) == UNCHANGED m /\ Log("move_construct", <<i>>, i, 0)  \* through a temporary and back
Swap(i) == m' = [x \in Idx |-> m[Other(x)]] /\ Log("swap", <<i>>, i, 0)
SelfAssign(i) == UNCHANGED m /\ Log("self_assign", <<i>>, i, 0)
Equal(i) == UNCHANGED m /\ Log("equal", <<i>>, i, m[1] = m[2])
RoundTrip(i) == UNCHANGED m /\ Log("round_trip", <<i>>, i, 0)

Finish == /\ Len(hist) = Depth /\ ~done
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
          /\ done' = TRUE /\ UNCHANGED <<m, hist>>

(* ---- exhaustive exploration of the abstract object (hist hidden by VIEW) ---- *)
Next == \E i \in Idx :
  \/ \E k \in Keys, v \in Vals : Insert("insert", i, k, v) \/ Put(i, k, v)
  \/ \E k \in Keys : Lookup("find", i, k) \/ Erase("erase", i, k) \/ Touch(i, k)
  \/ \E p \in 0..1 : EraseParity(i, p)
  \/ Clear(i) \/ Rehash(i) \/ CopyAssign(i) \/ CopyConstruct(i) \/ MoveAssign(i) \/ MoveConstruct(i)
  \/ Swap(i) \/ SelfAssign(i) \/ Equal(i) \/ RoundTrip(i)
  \/ \E k \in Keys, n \in 1..NK, v \in Vals : Bulk(i, k, n, v) \/ Make(i, k, n, v)
Spec == Init /\ [][Next]_vars
View == m
TypeOK == \A i \in Idx : DOMAIN m[i] \subseteq Keys /\ \A k \in DOMAIN m[i] : m[i][k] \in Vals
(* an operation on one map never changes the other, except the declared two-map operations *)
Frame == [][\A i \in Idx : (Len(hist') > Len(hist)) =>
              LET e == hist'[Len(hist')] IN
              (e[1] \notin {"swap", "move_assign"} /\ e[2][1] # i) => m'[i] = m[i]]_vars

(* every history of exactly Depth operations over the small alphabet *)
EnumNext == (Len(hist) < Depth /\ \E k \in Keys, v \in Vals, i \in {1} :
                \/ Insert("insert", i, k, v) \/ Put(i, k, v) \/ Erase("erase", i, k) \/ Lookup("find", i, k)
                \/ Clear(i) \/ Rehash(i) \/ CopyConstruct(i) \/ MoveConstruct(i) \/ RoundTrip(i)
                \/ CopyAssign(2) \/ MoveAssign(1) \/ Swap(1) \/ Equal(1))
            \/ Finish
EnumSpec == Init /\ [][EnumNext]_vars

(* ---- random long behaviours: grow and shrink phases alternate ---- *)
Growing == (Len(hist) \div Phase) % 2 = 0
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {RandomElement(1..100)}, i \in {RandomElement({1, 1, 2})}, k \in {RandomElement(Keys)},
          v \in {RandomElement(Vals)}, n \in {RandomElement(1..6)}, g \in {IF Growing THEN 44 ELSE 14} :
       CASE r <= g \div 3         -> Insert("insert", i, k, v)
         [] r <= (2 * g) \div 3   -> Insert("emplace", i, k, v)
         [] r <= g                -> Put(i, k, v)
         [] r <= 56               -> Erase("erase", i, k)
         [] r <= 62               -> Erase("erase_it", i, k)
         [] r <= 65               -> Lookup("find", i, k)
         [] r <= 68               -> Lookup("get", i, k)
         [] r <= 71               -> Lookup("at", i, k)
         [] r <= 72               -> IF k \in DOMAIN m[i] THEN Touch(i, k) ELSE Lookup("find", i, k)
         [] r <= 73               -> IF n = 1 THEN Clear(i) ELSE Bulk(i, k, n, v)
         [] r <= 75               -> Rehash(i)
         [] r <= 79               -> Bulk(i, k, n, v)
         [] r <= 80               -> Make(i, k, n, v)
         [] r <= 82               -> CopyAssign(i)
         [] r <= 84               -> CopyConstruct(i)
         [] r <= 86               -> MoveAssign(i)
         [] r <= 88               -> MoveConstruct(i)
         [] r <= 91               -> Swap(i)
         [] r <= 92               -> SelfAssign(i)
         [] r <= 94               -> Equal(i)
         [] r <= 98               -> RoundTrip(i)
         [] OTHER                 -> IF n = 1 THEN EraseParity(i, v % 2) ELSE Lookup("find_other", i, k)
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
