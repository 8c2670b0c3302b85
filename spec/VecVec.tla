------------------------------- MODULE VecVec -------------------------------
(* Vector of vectors: a sequence of buckets, each a sequence of integers (0 is
   the default constructed element).  Every step records <<result, contents>>.
   Positions are 0-based. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NV, MaxB, MaxLen, Depth

Vals == 1..NV
VARIABLES s, t, hist, done      \* s: the container under test, t: a second one
vars == <<s, t, hist, done>>

Rep(n, x) == [k \in 1..n |-> x]
Run(x, n) == [k \in 1..n |-> ((x + k - 2) % NV) + 1]
Min(a, b) == IF a < b THEN a ELSE b
Init == s = << >> /\ t = << >> /\ hist = << >> /\ done = FALSE
Log(op, args, res) == hist' = Append(hist, <<op, args, <<res, s', Len(t')>>>>) /\ UNCHANGED done
Upd(q) == Len(q) <= MaxB /\ (\A k \in 1..Len(q) : Len(q[k]) <= MaxLen) /\ s' = q /\ UNCHANGED t
Same == UNCHANGED <<s, t>>
B(b) == b < Len(s)

EmplaceBack(op, q) == Upd(Append(s, q)) /\ Log(op, <<q>>, Len(s) + 1)
AddSized(n) == Upd(Append(s, Rep(n, 0))) /\ Log("add_sized", <<n>>, n)
Resize(n) == Upd([k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE << >>]) /\ Log("resize", <<n>>, n)
Clear == Upd(<< >>) /\ Log("clear", << >>, 0)
Push(b, x) == B(b) /\ Upd([s EXCEPT ![b + 1] = Append(@, x)]) /\ Log("push", <<b, x>>, x)
PushOwn(b, c, p) == B(b) /\ B(c) /\ p < Len(s[c + 1]) /\ Upd([s EXCEPT ![b + 1] = Append(@, s[c + 1][p + 1])])
                    /\ Log("push_own", <<b, c, p>>, s[c + 1][p + 1])
Grow(b, n, x) == B(b) /\ (IF n < Len(s[b + 1]) THEN Same /\ Log("grow", <<b, n, x>>, "throw")
                          ELSE Upd([s EXCEPT ![b + 1] = @ \o Rep(n - Len(@), x)]) /\ Log("grow", <<b, n, x>>, n))
Write(op, b, p, x) == B(b) /\ p < Len(s[b + 1]) /\ Upd([s EXCEPT ![b + 1][p + 1] = x]) /\ Log(op, <<b, p, x>>, x)
At(b) == Same /\ Log("at", <<b>>, IF B(b) THEN Len(s[b + 1]) ELSE "throw")
At2(b, p) == B(b) /\ Same /\ Log("at2", <<b, p>>, IF p < Len(s[b + 1]) THEN s[b + 1][p + 1] ELSE "throw")
Ends == s # << >> /\ Same /\ Log("ends", << >>, <<s[1], s[Len(s)]>>)
Jump(a, b) == a <= b /\ B(b) /\ Same /\ Log("jump", <<a, b>>, <<b - a, s[a + 1], s[b + 1]>>)
CopyAssign == s' = t /\ UNCHANGED t /\ Log("copy_assign", << >>, Len(t))
CopyTo == t' = s /\ UNCHANGED s /\ Log("copy_to", << >>, Len(s))
Swap == s' = t /\ t' = s /\ Log("swap", << >>, 0)
MoveConstruct == Same /\ Log("move_construct", << >>, Len(s))
Reload == Same /\ Log("reload", << >>, 0)
Finish == /\ Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<s, t, hist>>

Small == 0..(MaxB - 1)
Next == \/ \E x \in Vals, n \in 0..MaxLen : EmplaceBack("emplace_back", Run(x, n)) \/ (\E b \in Small : Grow(b, n, x))
        \/ \E n \in 0..MaxB : AddSized(n) \/ Resize(n) \/ At(n)
        \/ \E b \in Small, x \in Vals, p \in 0..MaxLen : Push(b, x) \/ Write("write", b, p, x) \/ PushOwn(b, p, 0) \/ At2(b, p) \/ Jump(b, p)
        \/ Clear \/ Ends \/ CopyAssign \/ CopyTo \/ Swap \/ Reload
Spec == Init /\ [][Next]_vars
View == <<s, t>>
(* growing or writing one bucket leaves every other bucket alone *)
Frame == [][(Len(hist') > Len(hist)) =>
  LET e == hist'[Len(hist')] IN
  e[1] \in {"push", "push_own", "grow", "write"} => Len(s') = Len(s) /\ \A k \in 1..Len(s) : k # e[2][1] + 1 => s'[k] = s[k]]_vars

Pick(S) == RandomElement(S)
EnumNext == (Len(hist) < Depth /\
    \/ \E n \in {0, 2} : EmplaceBack("emplace_back", Run(1, n)) \/ Resize(n) \/ At(n)
    \/ AddSized(1) \/ Resize(1) \/ Resize(3) \/ Push(0, 1) \/ Push(1, 2) \/ PushOwn(0, 1, 0) \/ Grow(0, 2, 1) \/ Clear \/ CopyTo \/ CopyAssign \/ Reload) \/ Finish
EnumSpec == Init /\ [][EnumNext]_vars
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, x \in {Pick(Vals)}, n \in {Pick(0..3)}, u \in {Pick(1..6)}, m \in {Pick(0..6)} :
       \E b \in {IF s = << >> THEN 0 ELSE Pick(0..(Len(s) - 1))}, c \in {IF s = << >> THEN 0 ELSE Pick(0..(Len(s) - 1))} :
       LET empty == s = << >>
           lb == IF empty THEN 0 ELSE Len(s[b + 1])
           lc == IF empty THEN 0 ELSE Len(s[c + 1])
           p == IF lb = 0 THEN 0 ELSE m % lb
           q == IF lc = 0 THEN 0 ELSE m % lc
           full == Len(s) >= MaxB IN
       CASE empty /\ r <= 50 -> EmplaceBack("emplace_back", Run(x, n))
         [] full /\ r <= 40 -> (IF u = 1 THEN Clear ELSE Resize(b))
         [] r <= 14 /\ ~full -> EmplaceBack(IF u <= 3 THEN "emplace_back" ELSE "emplace_list", Run(x, n))
         [] r <= 20 /\ ~full -> AddSized(n)
         [] r <= 27 -> Resize(IF u <= 2 THEN b ELSE Min(MaxB, Len(s) + n))
         [] r <= 28 -> Clear
         [] r <= 44 /\ ~empty /\ lb < MaxLen -> Push(b, x)
         [] r <= 52 /\ ~empty /\ lb < MaxLen /\ lc > 0 -> PushOwn(b, c, q)
         [] r <= 60 /\ ~empty -> Grow(b, IF u = 1 THEN n ELSE Min(MaxLen, lb + n), x)
         [] r <= 68 /\ lb > 0 -> Write(<<"write", "write_at", "write_front", "write_back">>[(u % 4) + 1], b,
                                        CASE u % 4 = 2 -> 0 [] u % 4 = 3 -> lb - 1 [] OTHER -> p, x)
         [] r <= 74 -> At(IF u <= 2 THEN Len(s) + n ELSE b)
         [] r <= 80 /\ ~empty -> At2(b, IF u <= 2 THEN lb + n ELSE p)
         [] r <= 84 /\ ~empty -> Ends
         [] r <= 88 /\ ~empty -> Jump(Min(b, c), IF b > c THEN b ELSE c)
         [] r <= 91 -> CopyTo
         [] r <= 93 -> CopyAssign
         [] r <= 95 -> Swap
         [] r <= 96 -> MoveConstruct
         [] OTHER -> Reload
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
