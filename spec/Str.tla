-------------------------------- MODULE Str --------------------------------
(* Two string objects and two external character buffers.  An object either
   holds a character sequence of its own or refers to the first n characters of
   an external buffer, so that later changes of the buffer show through.
   Characters are 0..NC, 0 is the NUL character; no text given by length is cut
   at a NUL.  Every step records <<result, object 1, object 2>> where an object is
   <<characters, buffer it refers to or 0>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS L,        \* longest text that is copied into the object itself
          CopyKind, \* what copying a referring object gives: "own" | "keep"
          Refs,     \* BOOLEAN: the type can refer to foreign memory
          RefShort, \* BOOLEAN: short texts are referred to as well (never copied inline)
          Loadable, \* BOOLEAN: reload steps are generated
          Owns,     \* BOOLEAN: the type can own heap memory
          Erasable, \* BOOLEAN
          NC, Depth

Idx == 1..2
Other(i) == 3 - i
Lens == {0, 1, 2, L - 1, L, L + 1, L + 2, 2 * L + 3, 40}
ExtLen == 40
Min(a, b) == IF a < b THEN a ELSE b

VARIABLES o, ext, hist, done
vars == <<o, ext, hist, done>>

Own(v) == [k |-> "own", v |-> v, b |-> 0, n |-> 0]
Ref(b, n) == [k |-> "ref", v |-> << >>, b |-> b, n |-> n]
ValE(x, e) == IF x.k = "own" THEN x.v ELSE SubSeq(e[x.b], 1, x.n)
Val(x) == ValE(x, ext)
Obs(x, e) == <<ValE(x, e), x.b>>
Text(n, c, z) == [j \in 1..n |-> IF j = z THEN 0 ELSE ((c + j - 2) % NC) + 1]
HasZero(t) == \E j \in 1..Len(t) : t[j] = 0
Refer(b, n) == IF (RefShort \/ n > L \/ HasZero(SubSeq(ext[b], 1, n))) /\ n > 0 THEN Ref(b, n) ELSE Own(SubSeq(ext[b], 1, n))
Copy(x) == IF x.k = "own" \/ CopyKind = "own" THEN Own(Val(x)) ELSE x
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = << >> THEN b # << >>
                 ELSE IF b = << >> THEN FALSE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
Cmp(a, b) == <<a = b, a # b, LexLess(a, b), LexLess(b, a), ~LexLess(b, a), ~LexLess(a, b)>>
StartsWith(a, p) == Len(p) <= Len(a) /\ SubSeq(a, 1, Len(p)) = p
EndsWith(a, p) == Len(p) <= Len(a) /\ SubSeq(a, Len(a) - Len(p) + 1, Len(a)) = p

Init == /\ o = [i \in Idx |-> Own(<< >>)]
        /\ ext = [b \in Idx |-> Text(ExtLen, b, 0)]
        /\ hist = << >> /\ done = FALSE

Log(op, args, res) ==
  /\ hist' = Append(hist, <<op, args, <<res, Obs(o'[1], ext'), Obs(o'[2], ext')>>>>)
  /\ UNCHANGED done
Upd(i, x) == o' = [o EXCEPT ![i] = x] /\ UNCHANGED ext
Same == UNCHANGED <<o, ext>>

SetOwn(op, i, t) == /\ Owns \/ (Len(t) <= L /\ ~HasZero(t))
                    /\ Upd(i, Own(t)) /\ Log(op, <<i, t>>, Len(t))
SetRef(op, i, b, n) == /\ Refs /\ Upd(i, Refer(b, n)) /\ Log(op, <<i, b, n>>, n)
\* a part of the object's own text
SetPart(i, a, n) == /\ Owns /\ a + n <= Len(Val(o[i]))
                    /\ Upd(i, Own(SubSeq(Val(o[i]), a + 1, a + n))) /\ Log("set_part", <<i, a, n>>, n)
\* copy of a part of the other object
SetFromOther(i, a, n) == /\ Owns /\ a + n <= Len(Val(o[Other(i)]))
                         /\ Upd(i, Own(SubSeq(Val(o[Other(i)]), a + 1, a + n))) /\ Log("set_from_other", <<i, a, n>>, n)
Erase(i, p, n) == /\ Erasable /\ p + n <= Len(Val(o[i]))
                  /\ LET v == Val(o[i]) IN Upd(i, Own(SubSeq(v, 1, p) \o SubSeq(v, p + n + 1, Len(v))))
                  /\ Log("erase", <<i, p, n>>, Len(Val(o[i])) - n)
Write(i, p, c) == /\ o[i].k = "own" /\ p < Len(o[i].v)
                  /\ Upd(i, Own([o[i].v EXCEPT ![p + 1] = c])) /\ Log("write", <<i, p, c>>, c)
Reset(i) == Upd(i, Own(<< >>)) /\ Log("reset", <<i>>, 0)
Mutate(b, p, c) == /\ ext' = [ext EXCEPT ![b][p] = c] /\ UNCHANGED o /\ Log("mutate", <<b, p, c>>, 0)
CopyAssign(i) == Upd(i, Copy(o[Other(i)])) /\ Log("copy_assign", <<i>>, TRUE)
CopyConstruct(i) == Same /\ Log("copy_construct", <<i>>, Val(o[i]))
CopyReplace(i) == Upd(i, Copy(o[i])) /\ Log("copy_replace", <<i>>, 0)     \* destroyed and constructed again from a copy of itself
MoveAssign(i) == /\ o' = [x \in Idx |-> IF x = i THEN o[Other(i)] ELSE Own(<< >>)] /\ UNCHANGED ext /\ Log("move_assign", <<i>>, 0)
MoveConstruct(i) == Same /\ Log("move_construct", <<i>>, 0)
Swap(i) == o' = [x \in Idx |-> o[Other(x)]] /\ UNCHANGED ext /\ Log("swap", <<i>>, 0)
SelfAssign(i) == Same /\ Log("self_assign", <<i>>, 0)
SelfMove(i) == Same /\ Log("self_move", <<i>>, 0)
Compare(i) == Same /\ Log("compare", <<i>>, Cmp(Val(o[i]), Val(o[Other(i)])))
CompareText(i, t) == Same /\ Log("compare_text", <<i, t>>, <<Cmp(Val(o[i]), t), Cmp(t, Val(o[i]))>>)
Affix(i, t) == Same /\ Log("affix", <<i, t>>, <<StartsWith(Val(o[i]), t), EndsWith(Val(o[i]), t)>>)
Reload(i) == /\ Loadable /\ Upd(i, Own(Val(o[i]))) /\ Log("reload", <<i>>, 0)

Finish == /\ Len(hist) = Depth /\ ~done
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
          /\ done' = TRUE /\ UNCHANGED <<o, ext, hist>>

(* ---- exhaustive: boundary lengths only ---- *)
McLens == {0, 1, 2, 4}
McNext == \E i \in Idx :
  \/ \E n \in McLens, z \in 0..1 : SetOwn("set", i, Text(n, i, z))
  \/ \E b \in Idx, n \in McLens : SetRef("ref", i, b, n)
  \/ \E n \in 0..2, a \in 0..1 : SetPart(i, a, n) \/ Erase(i, a, n) \/ SetFromOther(i, a, n)
  \/ Write(i, 0, 2) \/ Reset(i) \/ Mutate(i, 1, 2) \/ Mutate(i, 1, 1) \/ CopyAssign(i) \/ CopyConstruct(i) \/ CopyReplace(i)
  \/ MoveAssign(i) \/ MoveConstruct(i) \/ Swap(i) \/ SelfAssign(i) \/ SelfMove(i) \/ Compare(i) \/ Reload(i)
Spec == Init /\ [][McNext]_vars
View == <<o, ext>>
\* only objects that refer to a buffer notice that it changes; everything else leaves buffers and the other object alone
Isolation == [][\A i \in Idx : (ext' # ext /\ o[i].k = "own") => Val(o[i]) = ValE(o'[i], ext')]_vars
Frame == [][(ext' = ext /\ Len(hist') > Len(hist)) =>
              LET e == hist'[Len(hist')] IN
              (e[1] \notin {"swap", "move_assign", "mutate"}) => o'[Other(e[2][1])] = o[Other(e[2][1])]]_vars
Ownership == \A i \in Idx : o[i].k = "ref" => (Refs /\ o[i].n > 0 /\ o[i].n <= ExtLen)

EnumNext == (Len(hist) < Depth /\
              \/ \E n \in {1, L, L + 1} : SetOwn("set", 1, Text(n, 1, 0))
              \/ SetOwn("assign_view", 2, Text(L + 5, 2, 2)) \/ SetOwn("assign_str", 1, Text(3, 1, 2))
              \/ SetRef("ref", 1, 1, L + 2) \/ SetRef("ref", 2, 2, 2) \/ Mutate(1, 1, 2)
              \/ SetPart(1, 0, L) \/ SetPart(1, 1, 1) \/ Erase(1, 1, L) \/ Erase(1, 0, 1) \/ Write(1, 0, 3) \/ Reset(1)
              \/ CopyAssign(1) \/ CopyAssign(2) \/ CopyConstruct(1) \/ CopyReplace(1) \/ MoveAssign(1) \/ MoveAssign(2) \/ MoveConstruct(1)
              \/ Swap(1) \/ SelfAssign(1) \/ SelfMove(1) \/ Compare(1) \/ Reload(1))
            \/ Finish
EnumSpec == Init /\ [][EnumNext]_vars

Pick(S) == RandomElement(S)
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, i \in Pick({{1}, {1}, {2}}), n0 \in {Pick(Lens \cap Nat)}, c \in {Pick(1..NC)}, z0 \in {Pick(0..40)}, t \in {Pick(1..6)}, b \in {Pick(Idx)},
          lim \in {Pick(1..3)} :
       \E n \in {IF Owns \/ n0 <= L THEN n0 ELSE n0 % (L + 1)} :
       \E p \in {Pick(0..Len(Val(o[i])))}, q \in {Pick(0..Len(Val(o[i])))}, op \in {Pick(0..Len(Val(o[Other(i)])))}, oq \in {Pick(0..Len(Val(o[Other(i)])))} :
       LET lo == Min(p, q) m == (IF p > q THEN p ELSE q) - lo
           olo == Min(op, oq) om == (IF op > oq THEN op ELSE oq) - olo
           z == IF z0 % 3 = 0 /\ n > 0 /\ Owns THEN (z0 % n) + 1 ELSE 0
           v == Val(o[i])
           cut == SubSeq(v, lo + 1, lo + m) IN
       CASE r <= 14 -> SetOwn(<<"set", "assign_view", "assign_str", "set_len", "construct_view", "construct_str">>[t], i, Text(n, c, z))
         [] r <= 18 -> SetOwn(<<"assign_chars", "construct_chars">>[(t % 2) + 1], i, Text(n, c, 0))
         [] r <= 30 -> IF Refs THEN SetRef(<<"ref", "ref_assign", "ref_construct">>[(t % 3) + 1], i, b, n0) ELSE SetOwn("set", i, Text(n, c, z))
         [] r <= 35 -> IF Owns THEN SetPart(i, lo, m) ELSE Compare(i)
         [] r <= 38 -> IF Owns THEN SetFromOther(i, olo, om) ELSE Compare(i)
         [] r <= 46 -> IF Erasable THEN (IF t = 1 THEN Erase(i, 0, Len(v)) ELSE Erase(i, lo, m)) ELSE Compare(i)
         [] r <= 50 -> IF o[i].k = "own" /\ v # << >> THEN Write(i, p % Len(v), c) ELSE Reset(i)
         [] r <= 52 -> Reset(i)
         [] r <= 58 -> Mutate(b, (z0 % ExtLen) + 1, IF t = 1 THEN 0 ELSE c)
         [] r <= 65 -> CopyAssign(i)
         [] r <= 69 -> CopyConstruct(i)
         [] r <= 71 -> CopyReplace(i)
         [] r <= 76 -> MoveAssign(i)
         [] r <= 79 -> MoveConstruct(i)
         [] r <= 82 -> Swap(i)
         [] r <= 84 -> SelfAssign(i)
         [] r <= 86 -> SelfMove(i)
         [] r <= 89 -> Compare(i)
         [] r <= 91 -> CompareText(i, IF t <= 2 THEN v ELSE IF t <= 4 THEN SubSeq(v, 1, lo) ELSE Text(n0, c, z))
         [] r <= 94 -> Affix(i, IF t <= 2 THEN cut ELSE IF t = 3 THEN SubSeq(v, 1, lo) ELSE IF t = 4 THEN SubSeq(v, lo + 1, Len(v)) ELSE Text(t - 4, c, 0))
         [] OTHER   -> IF Loadable THEN Reload(i) ELSE CopyAssign(i)
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
