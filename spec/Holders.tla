------------------------------ MODULE Holders ------------------------------
(* Optionals, owning pointers and tuples.
   oa, ob : optional values, << >> or <<v>>
   pa, pb : owning pointers; a pointer holds a chain of nodes <<v1, v2, ...>> (every node owns the next one), owned or merely referred to
   ta, tb : tuples, sequences of component values *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NV, Width,    \* values 0..NV, number of tuple components
          MaxChain, Fails, Images, Depth, Parts
VARIABLES o, p, t, hist, done
vars == <<o, p, t, hist, done>>
Names == {"a", "b"}
Other(x) == IF x = "a" THEN "b" ELSE "a"
V == 0..NV
Zero == [i \in 1..Width |-> 0]
Init == /\ o = [x \in Names |-> << >>] /\ p = [x \in Names |-> <<"none">>] /\ t = [x \in Names |-> Zero]
        /\ hist = << >> /\ done = FALSE
\* an owned chain is <<"own", v1, .., vn>>; <<"ref", k>> refers to the k-th of two objects owned by nobody; <<"none">>
Chain(q) == IF q[1] = "own" THEN Tail(q) ELSE << >>
\* the number of values alive: optional values and nodes of owned chains
Alive == Len(o["a"]) + Len(o["b"]) + Len(Chain(p["a"])) + Len(Chain(p["b"]))
View == <<o["a"], o["b"], p["a"], p["b"], t["a"], t["b"], Alive>>
Log(op, args, res) == hist' = Append(hist, <<op, args, <<res, View'>>>>) /\ UNCHANGED done

-----------------------------------------------------------------------------
SetO(x, v) == o' = [o EXCEPT ![x] = v] /\ UNCHANGED <<p, t>>
OSet(op, x, v) == SetO(x, <<v>>) /\ Log(op, <<x, v>>, 0)           \* o_ctor o_assign_r o_assign_l o_deref o_arrow o_value (the last three need a value)
ONull(op, x) == SetO(x, << >>) /\ Log(op, <<x>>, 0)                 \* o_null_ctor o_null_assign o_empty_assign
OCopy(op, x) == SetO(x, o[Other(x)]) /\ Log(op, <<x>>, 0)           \* o_copy_c (const source) o_copy_l (mutable source) o_copy_assign
OMove(op, x, w) == o' = [o EXCEPT ![x] = o[Other(x)], ![Other(x)] = w] /\ UNCHANGED <<p, t>> /\ Log(op, <<x, w>>, 0)
OSelf(op, x) == SetO(x, o[x]) /\ Log(op, <<x>>, 0)
OGet(x) == SetO(x, o[x]) /\ Log("o_get", <<x>>, IF o[x] = << >> THEN "thrown" ELSE o[x][1])
\* a failing constructor leaves no value behind
OFail(op, x) == SetO(x, IF op = "o_fail_ctor" THEN o[x] ELSE << >>) /\ Log(op, <<x>>, "thrown")
OLess(m, n) == n # << >> /\ (m = << >> \/ m[1] < n[1])
OCompare(x) == SetO(x, o[x]) /\ Log("o_compare", <<x>>, LET m == o[x] n == o[Other(x)] IN
                 IF m = n THEN "eq" ELSE IF OLess(m, n) THEN "lt" ELSE "gt")
OOps(x) == \/ \E op \in {"o_ctor", "o_assign_r", "o_assign_l"}, v \in V : OSet(op, x, v)
           \/ o[x] # << >> /\ \E op \in {"o_deref", "o_arrow", "o_value"}, v \in V : OSet(op, x, v)
           \/ \E op \in {"o_null_ctor", "o_null_assign", "o_empty_assign"} : ONull(op, x)
           \/ \E op \in {"o_copy_c", "o_copy_l", "o_copy_assign"} : OCopy(op, x)
           \/ \E op \in {"o_move_ctor", "o_move_assign"}, w \in {<< >>, <<NV>>} : OMove(op, x, w)
           \/ \E op \in {"o_self_copy", "o_self_move"} : OSelf(op, x)
           \/ OGet(x) \/ OCompare(x)
           \/ Fails /\ \E op \in {"o_fail_ctor", "o_fail_copy"} : OFail(op, x)

-----------------------------------------------------------------------------
SetP(q) == p' = q /\ UNCHANGED <<o, t>>
PMake(x, v) == SetP([p EXCEPT ![x] = <<"own", v>>]) /\ Log("p_make", <<x, v>>, 0)
PTake(x, v) == SetP([p EXCEPT ![x] = <<"own", v>>]) /\ Log("p_take", <<x, v>>, 0)            \* take ownership of a raw pointer
PRef(x, k) == SetP([p EXCEPT ![x] = <<"ref", k>>]) /\ Log("p_ref", <<x, k>>, 0)              \* refer without owning
PNull(op, x) == SetP([p EXCEPT ![x] = <<"none">>]) /\ Log(op, <<x>>, 0)                      \* p_reset p_null_assign p_null_ctor p_empty_assign
PMove(op, x) == SetP([p EXCEPT ![x] = p[Other(x)], ![Other(x)] = <<"none">>]) /\ Log(op, <<x>>, 0)   \* p_move_ctor p_move_assign
PSelf(x) == SetP(p) /\ Log("p_self_move", <<x>>, 0)
PSwap(x) == SetP([p EXCEPT ![x] = p[Other(x)], ![Other(x)] = p[x]]) /\ Log("p_swap", <<x>>, 0)
\* a new first node that owns the old chain; dropping the first node or the i-th node
PPush(x, v) == p[x][1] # "ref" /\ Len(p[x]) <= MaxChain /\ SetP([p EXCEPT ![x] = <<"own", v>> \o Chain(p[x])]) /\ Log("p_push", <<x, v>>, 0)
PPop(x, i) == Len(Chain(p[x])) >= i /\ LET c == Chain(p[x])
                  d == SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c)) IN
              SetP([p EXCEPT ![x] = IF d = << >> THEN <<"none">> ELSE <<"own">> \o d]) /\ Log("p_pop", <<x, i>>, 0)
\* cut the chain behind the i-th node and hand the rest to the other pointer
PCut(x, i) == Len(Chain(p[x])) >= i /\ LET c == Chain(p[x]) rest == SubSeq(c, i + 1, Len(c)) IN
              SetP([p EXCEPT ![x] = <<"own">> \o SubSeq(c, 1, i), ![Other(x)] = IF rest = << >> THEN <<"none">> ELSE <<"own">> \o rest]) /\ Log("p_cut", <<x, i>>, 0)
PWrite(op, x, v) == Chain(p[x]) # << >> /\ SetP([p EXCEPT ![x] = [p[x] EXCEPT ![2] = v]]) /\ Log(op, <<x, v>>, 0)   \* p_deref p_arrow p_get
POps(x) == \/ \E v \in V : PMake(x, v) \/ PTake(x, v) \/ PPush(x, v)
           \/ \E k \in 1..2 : PRef(x, k)
           \/ \E op \in {"p_reset", "p_null_assign", "p_null_ctor", "p_empty_assign"} : PNull(op, x)
           \/ \E op \in {"p_move_ctor", "p_move_assign"} : PMove(op, x)
           \/ PSelf(x) \/ PSwap(x)
           \/ \E i \in 1..MaxChain : PPop(x, i) \/ PCut(x, i)
           \/ \E op \in {"p_deref", "p_arrow", "p_get"}, v \in V : PWrite(op, x, v)

-----------------------------------------------------------------------------
SetT(q) == t' = q /\ UNCHANGED <<o, p>>
Tuples == [1..Width -> V]
TSet(op, x, w) == SetT([t EXCEPT ![x] = w]) /\ Log(op, <<x, w>>, 0)                           \* t_ctor t_assign_r t_assign_l
TOne(op, x, i, v) == SetT([t EXCEPT ![x][i] = v]) /\ Log(op, <<x, i, v>>, 0)                  \* t_get t_apply
TCopy(op, x) == SetT([t EXCEPT ![x] = t[Other(x)]]) /\ Log(op, <<x>>, 0)                      \* t_copy_ctor t_copy_assign
TMove(op, x, w) == SetT([t EXCEPT ![x] = t[Other(x)], ![Other(x)] = w]) /\ Log(op, <<x, w>>, 0)
TSelf(x) == SetT(t) /\ Log("t_self_copy", <<x>>, 0)
TDefault(x) == SetT([t EXCEPT ![x] = Zero]) /\ Log("t_default", <<x>>, 0)
TSwap(x) == SetT([t EXCEPT ![x] = t[Other(x)], ![Other(x)] = t[x]]) /\ Log("t_swap", <<x>>, 0)
RECURSIVE Lex(_, _)
Lex(m, n) == IF m = << >> THEN "eq" ELSE IF m[1] < n[1] THEN "lt" ELSE IF m[1] > n[1] THEN "gt" ELSE Lex(Tail(m), Tail(n))
TCompare(x) == SetT(t) /\ Log("t_compare", <<x>>, Lex(t[x], t[Other(x)]))
TSum(x) == SetT(t) /\ Log("t_visit", <<x>>, t[x])
\* zip: visit both tuples together
TZip(x) == SetT(t) /\ Log("t_zip", <<x>>, [i \in 1..(2 * Width) |-> IF i % 2 = 1 THEN t[x][(i + 1) \div 2] ELSE t[Other(x)][i \div 2]])
TOps(x, W) == \/ \E op \in {"t_ctor", "t_assign_r", "t_assign_l"}, w \in W : TSet(op, x, w)
              \/ \E op \in {"t_get", "t_apply"}, i \in 1..Width, v \in V : TOne(op, x, i, v)
              \/ \E op \in {"t_copy_ctor", "t_copy_assign"} : TCopy(op, x)
              \/ \E op \in {"t_move_ctor", "t_move_assign"} : TMove(op, x, Zero)
              \/ TSelf(x) \/ TDefault(x) \/ TSwap(x) \/ TCompare(x) \/ TSum(x) \/ TZip(x)

Reload == (Images /\ \A x \in Names : p[x][1] # "ref") /\ UNCHANGED <<o, p, t>> /\ Log("reload", << >>, 0)
Finish == Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<o, p, t, hist>>

Ops(x, W) == ("o" \in Parts /\ OOps(x)) \/ ("p" \in Parts /\ POps(x)) \/ ("t" \in Parts /\ TOps(x, W))
Some == {[i \in 1..Width |-> IF i = 1 THEN 1 ELSE IF i = Width THEN k ELSE (k * i) % (NV + 1)] : k \in 0..NV}
EnumNext == IF Len(hist) < Depth THEN Ops("a", Some) \/ (Len(hist) < Depth - 1 /\ Ops("b", Some)) \/ Reload ELSE Finish
EnumSpec == Init /\ [][EnumNext]_vars
McNext == \E x \in Names : Ops(x, Some)
McSpec == Init /\ [][McNext]_vars
McView == <<o, p, t>>

Pick(S) == RandomElement(S)
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, part \in {Pick(Parts)}, x \in {Pick(Names)}, v \in {Pick(V)}, w \in {Pick(Tuples)}, i \in {Pick(1..Width)}, k \in {Pick(1..2)}, c \in {Pick(1..MaxChain)} :
    CASE Images /\ r <= 6 /\ (\A y \in Names : p[y][1] # "ref") -> Reload
      [] part = "o" ->
           (CASE r <= 30 -> \E op \in {Pick({"o_ctor", "o_assign_r", "o_assign_l"})} : OSet(op, x, v)
              [] r <= 40 /\ o[x] # << >> -> \E op \in {Pick({"o_deref", "o_arrow", "o_value"})} : OSet(op, x, v)
              [] r <= 50 -> \E op \in {Pick({"o_null_ctor", "o_null_assign", "o_empty_assign"})} : ONull(op, x)
              [] r <= 62 -> \E op \in {Pick({"o_copy_c", "o_copy_l", "o_copy_assign"})} : OCopy(op, x)
              [] r <= 72 -> \E op \in {Pick({"o_move_ctor", "o_move_assign"})} : OMove(op, x, IF k = 1 THEN << >> ELSE <<v>>)
              [] r <= 77 -> \E op \in {Pick({"o_self_copy", "o_self_move"})} : OSelf(op, x)
              [] r <= 82 -> OGet(x)
              [] r <= 92 \/ ~Fails -> OCompare(x)
              [] OTHER -> \E op \in {Pick({"o_fail_ctor", "o_fail_copy"})} : OFail(op, x))
      [] part = "p" ->
           (CASE r <= 15 -> (IF k = 1 THEN PMake(x, v) ELSE PTake(x, v))
              [] r <= 45 /\ p[x][1] # "ref" /\ Len(p[x]) <= MaxChain -> PPush(x, v)
              [] r <= 52 -> PRef(x, k)
              [] r <= 60 /\ Chain(p[x]) # << >> -> \E op \in {Pick({"p_deref", "p_arrow", "p_get"})} : PWrite(op, x, v)
              [] r <= 66 -> \E op \in {Pick({"p_reset", "p_null_assign", "p_null_ctor", "p_empty_assign"})} : PNull(op, x)
              [] r <= 75 -> \E op \in {Pick({"p_move_ctor", "p_move_assign"})} : PMove(op, x)
              [] r <= 78 -> PSelf(x)
              [] r <= 82 -> PSwap(x)
              [] r <= 92 /\ Len(Chain(p[x])) >= c -> PPop(x, c)
              [] OTHER -> (IF Len(Chain(p[x])) >= c THEN PCut(x, c) ELSE PMake(x, v)))
      [] OTHER ->
           (CASE r <= 25 -> \E op \in {Pick({"t_ctor", "t_assign_r", "t_assign_l"})} : TSet(op, x, w)
              [] r <= 45 -> \E op \in {Pick({"t_get", "t_apply"})} : TOne(op, x, i, v)
              [] r <= 55 -> \E op \in {Pick({"t_copy_ctor", "t_copy_assign"})} : TCopy(op, x)
              [] r <= 65 -> \E op \in {Pick({"t_move_ctor", "t_move_assign"})} : TMove(op, x, w)
              [] r <= 70 -> (IF k = 1 THEN TSelf(x) ELSE TDefault(x))
              [] r <= 75 -> TSwap(x)
              [] r <= 88 -> TCompare(x)
              [] r <= 94 -> TSum(x)
              [] OTHER -> TZip(x))
SimSpec == Init /\ [][SimNext]_vars

TypeOK == /\ \A x \in Names : Len(o[x]) <= 1 /\ p[x][1] \in {"none", "own", "ref"} /\ (p[x][1] = "own" => Len(p[x]) >= 2) /\ Len(t[x]) = Width
\* comparison is a total order in both representations
Orders == /\ Lex(t["a"], t["b"]) = "eq" <=> t["a"] = t["b"]
          /\ (Lex(t["a"], t["b"]) = "lt" <=> Lex(t["b"], t["a"]) = "gt")
          /\ ~(OLess(o["a"], o["b"]) /\ OLess(o["b"], o["a"])) /\ (o["a"] = o["b"] \/ OLess(o["a"], o["b"]) \/ OLess(o["b"], o["a"]))
=============================================================================
