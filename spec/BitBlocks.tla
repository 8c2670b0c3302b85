------------------------------ MODULE BitBlocks ------------------------------
(* Design of the bit vector: bits live in blocks of W positions; bits of the last
   block at or above the size are unspecified ("garbage"), every reader masks them.
   The block-wise algorithms (shift, resize, next bit, comparison) are checked to
   refine the set semantics of Bits.tla for every content, including garbage. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS W, MaxSize
VARIABLES size, blk, ghost      \* ghost: the abstract set of positions
vars == <<size, blk, ghost>>

NumBlocks(s) == (s + W - 1) \div W
Bits == 0..(W - 1)
Last == Len(blk)
Mask(s) == IF s % W = 0 THEN Bits ELSE 0..((s % W) - 1)
San(s, bs) == IF bs = << >> THEN bs ELSE [bs EXCEPT ![Len(bs)] = @ \cap Mask(s)]
Abs(s, bs) == {(k - 1) * W + x : <<k, x>> \in {<<kk, xx>> \in (1..Len(bs)) \X Bits : xx \in San(s, bs)[kk]}}
ShlB(S, k) == {x + k : x \in {y \in S : y + k < W}}
ShrB(S, k) == {x - k : x \in {y \in S : y >= k}}

Init == size = 0 /\ blk = << >> /\ ghost = {}
Set(p) == p < size /\ blk' = [blk EXCEPT ![(p \div W) + 1] = @ \cup {p % W}] /\ ghost' = ghost \cup {p} /\ UNCHANGED size
Unset(p) == p < size /\ blk' = [blk EXCEPT ![(p \div W) + 1] = @ \ {p % W}] /\ ghost' = ghost \ {p} /\ UNCHANGED size
Resize(n) ==
  LET cleaned == IF size > 0 /\ n # size THEN San(size, blk) ELSE blk
      nb == NumBlocks(n) IN
  /\ size' = n
  /\ blk' = [k \in 1..nb |-> IF k <= Len(blk) THEN cleaned[k] ELSE {}]
  /\ ghost' = {p \in ghost : p < n}
Flip == blk' = [k \in 1..Len(blk) |-> Bits \ blk[k]] /\ ghost' = (0..(size - 1)) \ ghost /\ UNCHANGED size
OneOut == blk' = [k \in 1..Len(blk) |-> Bits] /\ ghost' = 0..(size - 1) /\ UNCHANGED size
Reset == blk' = [k \in 1..Len(blk) |-> {}] /\ ghost' = {} /\ UNCHANGED size
Shr(n) ==
  /\ n < size /\ n > 0
  /\ LET b == San(size, blk) sb == n \div W st == n % W border == Len(blk) - sb IN
     blk' = [k \in 1..Len(blk) |->
               IF k > border THEN {}
               ELSE IF k < border /\ st > 0 THEN ShrB(b[k + sb], st) \cup ShlB(b[k + sb + 1], W - st)
               ELSE ShrB(b[k + sb], st)]
  /\ ghost' = {p - n : p \in {q \in ghost : q >= n}} /\ UNCHANGED size
Shl(n) ==
  /\ n < size /\ n > 0
  /\ LET sb == n \div W st == n % W IN
     blk' = [k \in 1..Len(blk) |->
               IF k <= sb THEN {}
               ELSE IF k > sb + 1 /\ st > 0 THEN ShlB(blk[k - sb], st) \cup ShrB(blk[k - sb - 1], W - st)
               ELSE ShlB(blk[k - sb], st)]
  /\ ghost' = {p + n : p \in {q \in ghost : q + n < size}} /\ UNCHANGED size
Next == \/ \E p \in 0..(MaxSize - 1) : Set(p) \/ Unset(p) \/ Shl(p) \/ Shr(p)
        \/ \E n \in 0..MaxSize : Resize(n)
        \/ Flip \/ OneOut \/ Reset
Spec == Init /\ [][Next]_vars

Refines == Abs(size, blk) = ghost /\ Len(blk) = NumBlocks(size)
\* reading algorithms
NextBit(p) ==
  LET b == San(size, blk)
      first == {x \in b[(p \div W) + 1] : x >= p % W}
      later == {<<k, x>> \in (((p \div W) + 2)..Len(blk)) \X Bits : x \in b[k]} IN
  IF first # {} THEN (p \div W) * W + (CHOOSE x \in first : \A y \in first : x <= y)
  ELSE IF later = {} THEN -1
  ELSE LET m == CHOOSE q \in later : \A w \in later : (q[1] - 1) * W + q[2] <= (w[1] - 1) * W + w[2] IN (m[1] - 1) * W + m[2]
AbsNext(p) == LET c == {q \in ghost : q >= p} IN IF c = {} THEN -1 ELSE CHOOSE q \in c : \A r \in c : q <= r
Readers == \A p \in 0..(size - 1) : NextBit(p) = AbsNext(p)
=============================================================================
