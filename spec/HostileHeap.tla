---------------------------- MODULE HostileHeap ----------------------------
(* Design of the checks of checked deserialization.  A buffer of N cells holds
   arbitrary values.  The root owns ranges of the buffer: a tree (a vector of
   trees), or a vector of vectors of numbers and a vector of numbers.  The
   deserializer walks from the root, converts every value in place (if the image
   has the other byte order or raw pointers), checks every header when it gets
   there, and remembers what is owned: how much altogether ("budget"), or exactly
   which cells ("disjoint").  If it accepts, reading the final memory from the
   root stays inside the buffer and ends.  With conversion the budget does not
   suffice (a later conversion changes a header that was already checked): TLC
   finds that with Guard = "budget", Converts = TRUE, Shape = "two". *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, MaxV, Shape, Converts, Guard
Cells == 0..(N - 1)
Values == 0..MaxV
Conv(x) == IF Converts THEN MaxV - x ELSE x

VARIABLES mem, stack, owned, claims, status, steps
vars == <<mem, stack, owned, claims, status, steps>>

Width(kind) == CASE kind = "tree" -> 2 [] kind = "vecvec" -> 2 [] kind = "vec" -> 2 [] kind = "int" -> 1
Elem(kind) == CASE kind = "tree" -> "tree" [] kind = "vecvec" -> "vec" [] kind = "vec" -> "int"
RootSize == IF Shape = "tree" THEN 2 ELSE 4
RootTasks == IF Shape = "tree" THEN <<<<"tree", 0>>>> ELSE <<<<"vecvec", 0>>, <<"vec", 2>>>>

Init == mem \in [Cells -> Values] /\ stack = RootTasks /\ owned = RootSize /\ claims = 0..(RootSize - 1) /\ status = "run" /\ steps = 0

Range(p, n) == p..(p + n - 1)
Fits(p, n) == n = 0 \/ p + n <= N
Step ==
  /\ status = "run" /\ stack # << >> /\ steps' = steps + 1
  /\ LET kind == Head(stack)[1]  at == Head(stack)[2] IN
     IF kind = "int" THEN mem' = [mem EXCEPT ![at] = Conv(@)] /\ stack' = Tail(stack) /\ UNCHANGED <<owned, claims, status>>
     ELSE LET p == Conv(mem[at])  s == Conv(mem[at + 1])  n == s * Width(Elem(kind))
              good == Fits(p, n) /\ owned + n <= N /\ (Guard = "disjoint" => Range(p, n) \intersect claims = {})
          IN  /\ mem' = [mem EXCEPT ![at] = p, ![at + 1] = s]
              /\ IF good THEN /\ owned' = owned + n /\ claims' = claims \union Range(p, n) /\ UNCHANGED status
                              /\ stack' = [i \in 1..s |-> <<Elem(kind), p + (i - 1) * Width(Elem(kind))>>] \o Tail(stack)
                 ELSE status' = "rejected" /\ stack' = << >> /\ UNCHANGED <<owned, claims>>
Finish == status = "run" /\ stack = << >> /\ status' = "accepted" /\ UNCHANGED <<mem, stack, owned, claims, steps>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* reading: inside of the buffer, and not deeper than there are cells *)
RECURSIVE Readable(_, _, _)
Readable(kind, at, depth) ==
  depth > 0 /\ (kind = "int" \/ LET p == mem[at]  s == mem[at + 1] IN
    Fits(p, s * Width(Elem(kind))) /\ \A i \in 1..s : Readable(Elem(kind), p + (i - 1) * Width(Elem(kind)), depth - 1))
Safe == status = "accepted" => \A i \in DOMAIN RootTasks : Readable(RootTasks[i][1], RootTasks[i][2], N + 1)
InBuffer == \A i \in DOMAIN stack : stack[i][2] + Width(stack[i][1]) <= N
Bounded == steps <= N + 3
(* nothing well formed is rejected: an image whose ranges are disjoint *)
=============================================================================
