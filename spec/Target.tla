------------------------------- MODULE Target -------------------------------
(* What a serialization target contains: an image that only grows by appended blocks, each at the first position behind the end that is a
   multiple of its alignment, with zeros in the gaps, and positions that are patched afterwards.
   The image is a list of layers <<position, length, byte>> painted over zeros, later layers over earlier ones. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Sizes, Aligns, Widths, MaxSize,
          Buffer,     \* in-memory targets: patches behind the end are rejected, and the target can be emptied
          Chunks      \* block sizes and totals of the chunk iteration
VARIABLES size, layers, hist, done
vars == <<size, layers, hist, done>>
Init == size = 0 /\ layers = << >> /\ hist = << >> /\ done = FALSE
Log(op, args, exp) == hist' = Append(hist, <<op, args, exp>>) /\ UNCHANGED done
Up(n, a) == IF a <= 1 THEN n ELSE ((n + a - 1) \div a) * a
Byte == (Len(hist) % 250) + 1
Write(n, a) == /\ n > 0 \/ size > 0
               /\ Up(size, a) + n <= MaxSize
               /\ LET p == Up(size, a) IN
                  /\ size' = p + n
                  /\ layers' = IF n = 0 THEN layers ELSE Append(layers, <<p, n, Byte>>)
                  /\ Log("append", <<n, a, Byte>>, <<p, p + n>>)
Patch(p, w) == /\ p >= 0 /\ p + w <= size /\ UNCHANGED size
               /\ layers' = Append(layers, <<p, w, Byte>>)
               /\ Log("patch", <<p, w, Byte>>, size)
PatchOut(p, w) == Buffer /\ p >= 0 /\ p + w > size /\ UNCHANGED <<size, layers>> /\ Log("patch", <<p, w, Byte>>, "throw")
Checksum(p) == p >= 0 /\ p < size /\ UNCHANGED <<size, layers>> /\ Log("checksum", <<p>>, <<size, layers>>)
Image == UNCHANGED <<size, layers>> /\ Log("image", << >>, <<size, layers>>)
Reset == Buffer /\ size' = 0 /\ layers' = << >> /\ Log("reset", << >>, 0)
Pieces(b, n) == [k \in 1 .. (n + b - 1) \div b |-> <<(k - 1) * b, IF k * b <= n THEN b ELSE n - (k - 1) * b>>]
Chunk(b, n) == UNCHANGED <<size, layers>> /\ Log("chunk", <<b, n>>, Pieces(b, n))

Finish == ~done /\ Len(hist) = Depth /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<size, layers, hist>>
Enum == ~done /\ Len(hist) < Depth /\
  IF Len(hist) = Depth - 1 THEN Image
  ELSE IF Len(hist) = Depth - 2 THEN Checksum(0)
  ELSE \/ \E n \in Sizes, a \in Aligns : Write(n, a)
       \/ \E p \in {0, size - 8, size - 2}, w \in Widths : Patch(p, w) \/ PatchOut(p, w)
       \/ size > 0 /\ Reset
EnumSpec == Init /\ [][Enum \/ Finish]_vars

Pick(S) == RandomElement(S)
Sim == ~done /\ Len(hist) < Depth /\
  IF Len(hist) = Depth - 1 THEN Image
  ELSE \E r \in {Pick(1 .. 100)}, n \in {Pick(Sizes)}, m \in {Pick(0 .. 40)}, a \in {Pick(Aligns)}, w \in {Pick(Widths)}, u \in {Pick(0 .. 1000000)}, v \in {Pick(1 .. 4)} :
       LET p == CASE v = 1 -> 0 [] v = 2 -> size - w [] OTHER -> u % (size + 1) IN
       CASE r <= 15 /\ p >= 0 /\ p + w <= size -> Patch(p, w)
         [] r <= 17 /\ Buffer -> PatchOut(size - w + v, w) \/ (w < v /\ Image) \/ (size < w /\ Image)
         [] r <= 19 /\ Buffer -> Reset
         [] r <= 24 /\ size > 0 -> Checksum(IF v = 1 THEN 0 ELSE u % size)
         [] r <= 30 -> Image
         [] r <= 35 -> \E b \in {Pick(Chunks)}, t \in {Pick(Chunks)} : Chunk(b + 1, IF v = 1 THEN t ELSE u % (4 * b + 5))
         [] r <= 42 /\ Up(size, a) + n <= MaxSize /\ (n > 0 \/ size > 0) -> Write(n, a)
         [] OTHER -> IF size + 200 <= MaxSize THEN (Write(m, a) \/ (m = 0 /\ size = 0 /\ Image)) ELSE Image
SimSpec == Init /\ [][Sim \/ Finish]_vars

\* ---- properties of the model
Appended == SelectSeq(layers, LAMBDA l : TRUE)
InBounds == \A k \in 1 .. Len(layers) : layers[k][1] >= 0 /\ layers[k][1] + layers[k][2] <= size
\* an appended block starts at or behind the end and never overlaps what is there; a patch leaves the size
Grow == [][Len(hist') > Len(hist) =>
            LET h == hist'[Len(hist')] IN
            /\ h[1] = "append" => h[3][1] >= size /\ h[3][1] < size + (IF h[2][2] = 0 THEN 1 ELSE h[2][2]) /\ (h[2][2] <= 1 \/ h[3][1] % h[2][2] = 0) /\ size' = h[3][1] + h[2][1]
            /\ h[1] \in {"patch", "checksum", "image", "chunk"} => size' = size]_vars
\* chunks partition the range
Cover == \A b \in 1 .. 5, n \in 0 .. 12 : LET c == Pieces(b, n) IN
           /\ \A k \in 1 .. Len(c) : c[k][2] >= 1 /\ c[k][2] <= b /\ c[k][1] = (IF k = 1 THEN 0 ELSE c[k - 1][1] + c[k - 1][2])
           /\ (IF Len(c) = 0 THEN 0 ELSE c[Len(c)][1] + c[Len(c)][2]) = n
=============================================================================
