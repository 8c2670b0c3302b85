------------------------------ MODULE Variant ------------------------------
(* Two tagged unions a, b: each holds nothing or one value of one alternative. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NAlt, NV,     \* alternatives 0..NAlt-1 with values 0..NV each
          Boom,         \* the alternative whose construction may fail, any other number: none does
          Images,       \* values may be written to an image and read back
          Depth
VARIABLES s, hist, done
vars == <<s, hist, done>>
None == << >>
Alts == 0..(NAlt - 1)
Vals == {<<k, v>> : k \in Alts, v \in 0..NV}
Slots == {None} \cup Vals
Names == {"a", "b"}
Other(x) == IF x = "a" THEN "b" ELSE "a"
\* what a reader sees: valid, index, value
View(z) == IF z = None THEN <<FALSE, -1, -1>> ELSE <<TRUE, z[1], z[2]>>
Init == s = [x \in Names |-> None] /\ hist = << >> /\ done = FALSE
Log(op, args, res) == hist' = Append(hist, <<op, args, <<res, View(s'["a"]), View(s'["b"])>>>>) /\ UNCHANGED done
Put(x, v) == s' = [s EXCEPT ![x] = v]
Put2(x, v, w) == s' = [s EXCEPT ![x] = v, ![Other(x)] = w]

\* construction and assignment from a value: by lvalue, by const lvalue, by rvalue, in place by type and by position
Set(op, x, v) == Put(x, v) /\ Log(op, <<x, v>>, 0)
SetOps == {"ctor", "assign_l", "assign_c", "assign_r", "emplace_t", "emplace_i"}
\* from the other variant; a moved from variant is given the value w
CopyCtor(x) == Put(x, s[Other(x)]) /\ Log("copy_ctor", <<x>>, 0)
CopyAssign(x) == Put(x, s[Other(x)]) /\ Log("copy_assign", <<x>>, 0)
MoveCtor(x, w) == Put2(x, s[Other(x)], w) /\ Log("move_ctor", <<x, w>>, 0)
MoveAssign(x, w) == Put2(x, s[Other(x)], w) /\ Log("move_assign", <<x, w>>, 0)
SelfAssign(x) == UNCHANGED s /\ Log("self_assign", <<x>>, 0)
Clear(op, x) == Put(x, None) /\ Log(op, <<x>>, 0)          \* clear_r: = variant{}; clear_l: from an empty lvalue
Swap(x) == Put2(x, s[Other(x)], s[x]) /\ Log("swap", <<x>>, 0)
\* a failing constructor leaves no value behind; a failing assignment to the alternative already held keeps it
FailCtor(x) == UNCHANGED s /\ Log("fail_ctor", <<x>>, "thrown")
FailEmplace(op, x) == Put(x, None) /\ Log(op, <<x>>, "thrown")
FailAssign(op, x) == (IF s[x] # None /\ s[x][1] = Boom THEN UNCHANGED s ELSE Put(x, None)) /\ Log(op, <<x>>, "thrown")
\* observers
Order(p, q) == IF p = q THEN "eq" ELSE IF p = None \/ q = None THEN "some"
               ELSE IF p[1] # q[1] THEN (IF p[1] < q[1] THEN "lt" ELSE "gt")
               ELSE IF p[2] < q[2] THEN "lt" ELSE "gt"
Compare(x) == UNCHANGED s /\ Log("compare", <<x>>, <<s[x] = s[Other(x)], Order(s[x], s[Other(x)])>>)
Visit(op, x) == UNCHANGED s /\ Log(op, <<x>>, IF s[x] = None THEN "thrown" ELSE s[x])
\* writes through the reference handed out by get<T>, get<I>, get_if<T>, get_if<I>, apply
Through(op, x, v) == s[x] # None /\ Put(x, <<s[x][1], v>>) /\ Log(op, <<x, s[x][1], v>>, 0)
ThroughOps == {"get_t", "get_i", "getif_t", "getif_i", "apply_set"}
\* a value without content cannot be written
Reload == UNCHANGED s /\ Log("reload", << >>, IF s["a"] = None \/ s["b"] = None THEN "refused" ELSE 0)
Finish == Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<s, hist>>

Op(x) ==
  \/ \E op \in SetOps, v \in Vals : Set(op, x, v)
  \/ CopyCtor(x) \/ CopyAssign(x) \/ SelfAssign(x) \/ Swap(x) \/ Compare(x)
  \/ \E w \in {None, <<0, 1>>, <<NAlt - 1, NV>>} : MoveCtor(x, w) \/ MoveAssign(x, w)
  \/ \E op \in {"clear_r", "clear_l"} : Clear(op, x)
  \/ Boom \in Alts /\ (FailCtor(x) \/ FailEmplace("fail_emplace_t", x) \/ FailEmplace("fail_emplace_i", x)
                   \/ FailAssign("fail_assign_l", x) \/ FailAssign("fail_assign_r", x))
  \/ \E op \in {"visit", "visit_c", "std_visit"} : Visit(op, x)
  \/ \E op \in ThroughOps, v \in 0..NV : Through(op, x, v)
\* every operation in every pair of states
Setup(x) == \/ \E v \in Vals : Set("ctor", x, v)
            \/ Clear("clear_r", x)
EnumNext == IF Len(hist) = 0 THEN Setup("a") ELSE IF Len(hist) = 1 THEN Setup("b")
            ELSE IF Len(hist) < Depth THEN Op("a") \/ (Images /\ Reload) ELSE Finish
EnumSpec == Init /\ [][EnumNext]_vars
McNext == UNCHANGED <<hist, done>> /\ s' \in UNION {{[s EXCEPT ![x] = z], [s EXCEPT ![x] = s[Other(x)]]} : x \in Names, z \in Slots}

Pick(S) == RandomElement(S)
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, x \in {Pick(Names)}, v \in {Pick(Vals)}, z \in {Pick(Slots)}, u \in {Pick(1..6)}, c \in {Pick(0..NV)} :
    LET same == IF s[x] # None /\ u <= 3 THEN <<s[x][1], c>> ELSE v IN
    CASE r <= 30 -> \E op \in {Pick(SetOps)} : Set(op, x, same)
      [] r <= 35 -> CopyCtor(x)
      [] r <= 41 -> CopyAssign(x)
      [] r <= 45 -> MoveCtor(x, z)
      [] r <= 51 -> MoveAssign(x, z)
      [] r <= 53 -> SelfAssign(x)
      [] r <= 56 -> \E op \in {Pick({"clear_r", "clear_l"})} : Clear(op, x)
      [] r <= 64 -> Swap(x)
      [] r <= 70 -> (IF Boom \notin Alts THEN Compare(x) ELSE CASE u = 1 -> FailCtor(x) [] u = 2 -> FailEmplace("fail_emplace_t", x) [] u = 3 -> FailEmplace("fail_emplace_i", x)
                                        [] u = 4 -> FailAssign("fail_assign_l", x) [] OTHER -> FailAssign("fail_assign_r", x))
      [] r <= 80 -> Compare(x)
      [] r <= 86 -> \E op \in {Pick({"visit", "visit_c", "std_visit"})} : Visit(op, x)
      [] r <= 94 \/ ~Images -> (IF s[x] = None THEN Compare(x) ELSE \E op \in {Pick(ThroughOps)} : Through(op, x, c))
      [] OTHER -> Reload
SimSpec == Init /\ [][SimNext]_vars

TypeOK == \A x \in Names : s[x] \in Slots
\* the order is total and equality is its diagonal
Total == Order(s["a"], s["b"]) = "eq" <=> s["a"] = s["b"]
Mirror == LET p == Order(s["a"], s["b"]) q == Order(s["b"], s["a"]) IN
          (p = "lt" <=> q = "gt") /\ (p = "gt" <=> q = "lt") /\ (p = "eq" <=> q = "eq")
McSpec == Init /\ [][Op("a") \/ Op("b") \/ Reload]_vars
View_ == s
=============================================================================
