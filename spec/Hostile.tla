------------------------------ MODULE Hostile ------------------------------
(* Checked deserialization of images that somebody altered.  An image holds one
   value of every kind of container.  Each container has a header: where its
   storage is, how much of it there is, who releases it, which alternative is
   held.  Header fields are overwritten with symbolic values; which of the
   resulting headers contradict the buffer is decided here.  Those have to be
   rejected, everything else has to be rejected or be safe to read. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Depth, Simulate, Kinds, Most   \* Most: how many fields of a header deviate at once

(* storage positions: the original one, the header itself, the root of the image, the header of another container,
   the last place of the buffer that is aligned, its end; outside of it; not aligned *)
Ptrs == {"orig", "null", "self", "root", "alias", "last", "end", "before", "past", "huge", "low", "odd"}
Out == {"before", "past", "huge", "low"}
Sizes == {"orig", "zero", "one", "plus", "over", "wrap", "max"}
Flags == {"orig", "set", "two", "all"}        \* a flag is 0 in the image (or 1 for a value that is there)

(* n: how many elements there are in the image: 0, 1 or many (2) *)
Count(s, n) == CASE s = "half" -> n \div 2 [] s = "double" -> 2 * n + 1 [] s = "zero" -> 0 [] s = "one" -> 1 [] s = "orig" -> n [] s = "plus" -> n + 1 [] s = "over" -> 100 [] s = "wrap" -> 101 [] s = "max" -> 102
Null(p, n) == p = "null" \/ (p = "orig" /\ n = 0)
(* storage of c elements does not lie in the buffer *)
Outside(p, n, c, aligned) ==
  /\ ~Null(p, n)
  /\ p \in Out \/ (p = "end" /\ c > 0) \/ (p = "last" /\ c > 1) \/ c >= 100 \/ (p = "odd" /\ aligned)

Fields(k) ==
  CASE k = "vector" -> [ptr |-> Ptrs, size |-> Sizes, cap |-> Sizes, self |-> Flags]
    [] k = "string" -> [ptr |-> Ptrs, size |-> Sizes, self |-> Flags, short |-> Flags]
    [] k = "cstring" -> [ptr |-> Ptrs, size |-> Sizes, self |-> Flags, remaining |-> {"orig", "zero", "one", "limit", "over"}]
    [] k = "short_string" -> [short |-> {"orig", "zero", "two", "all"}]
    [] k = "short_cstring" -> [remaining |-> {"orig", "zero", "one", "limit", "over"}]
    [] k = "unique_ptr" -> [ptr |-> Ptrs, self |-> Flags]
    [] k = "pointer" -> [ptr |-> Ptrs]
    [] k = "optional" -> [valid |-> {"orig", "zero", "set", "two", "all"}]
    [] k = "bool" -> [value |-> {"orig", "zero", "set", "two", "all"}]
    [] k = "variant" -> [idx |-> {"orig", "zero", "one", "final", "over", "max"}]
    [] k = "map" -> [ptr |-> Ptrs, ctrl_ptr |-> Ptrs, size |-> Sizes, cap |-> Sizes \union {"half", "double"}, growth |-> Sizes, self |-> Flags]
    [] k = "ctrl" -> [place |-> {"full", "empty", "end", "mirror"}, byte |-> {"same", "full", "empty", "deleted", "end", "bad"}]
    [] k = "matrix" -> [rows |-> Sizes, columns |-> Sizes]
    [] k = "bitvec" -> [size |-> Sizes \union {"block"}]
    [] k = "vecvec" -> [start |-> Sizes]
    [] k = "nvec" -> [start |-> Sizes]
    [] k = "fws" -> [start |-> Sizes, complete |-> Flags]
    [] k = "mmap" -> [begin |-> Sizes, size |-> Sizes, cap |-> Sizes, count |-> Sizes]
    [] k = "paged" -> [pstart |-> Sizes, psize |-> Sizes, pcap |-> Sizes, next |-> Sizes]
Orig(k) == [f \in DOMAIN Fields(k) |-> IF f = "byte" THEN "same" ELSE "orig"]

Huge == {"over", "wrap", "max"}
Contradicts(k, n, aligned, h) ==
  CASE k = "vector" -> \/ h.self # "orig" \/ Count(h.size, n) # Count(h.cap, n) \/ ((Count(h.size, n) = 0) # Null(h.ptr, n)) \/ Outside(h.ptr, n, Count(h.cap, n), aligned)
    [] k = "string" -> \/ h.short \in {"two", "all"}
                       \/ h.short = "orig" /\ (h.self # "orig" \/ ((Count(h.size, n) = 0) # Null(h.ptr, n)) \/ Outside(h.ptr, n, Count(h.size, n), aligned))
    [] k = "cstring" -> \/ h.remaining = "over"
                        \/ h.remaining = "orig" /\ (h.self # "orig" \/ h.ptr = "null" \/ Outside(h.ptr, n, Count(h.size, n) + 1, aligned))
    [] k = "short_string" -> h.short \in {"two", "all"}
    [] k = "short_cstring" -> h.remaining = "over"
    [] k = "unique_ptr" -> h.self # "orig" \/ Outside(h.ptr, n, 1, aligned)
    [] k = "pointer" -> Outside(h.ptr, n, 1, aligned)
    [] k = "optional" -> h.valid \in {"two", "all"}
    [] k = "bool" -> h.value \in {"two", "all"}
    [] k = "variant" -> h.idx \in {"over", "max"}
    [] k = "map" -> \/ h.self # "orig"
                    \/ h.cap = "orig" /\ h.ctrl_ptr = "orig" /\ Count(h.size, n) # n
                    \/ h.cap = "orig" /\ h.ptr = "orig" /\ h.ctrl_ptr \notin {"orig", "alias", "last"} /\ n > 0
                    \/ n > 0 /\ h.ptr \notin {"orig", "alias"} /\ h.ctrl_ptr = "orig" /\ h.cap = "orig"
                    \/ h.ptr \in Out \/ h.ctrl_ptr \in Out \union {"null", "end"}
                    \/ h.cap \in Huge /\ ~Null(h.ptr, n)
                    \/ h.ptr = "end" /\ Count(h.cap, n) > 0
                    \/ n > 0 /\ (h.cap = "plus" \/ (h.cap \in {"half", "double"} /\ h.ptr = "orig" /\ h.ctrl_ptr = "orig"))
                    \/ Null(h.ptr, n) # (h.cap = "zero" \/ (n = 0 /\ h.cap \in {"orig", "half"}))
                    \/ h.growth \in Huge
    [] k = "ctrl" -> \/ h.byte = "bad" \/ (h.place = "end" /\ h.byte \notin {"same", "end"}) \/ (h.place = "mirror" /\ h.byte \notin {"same"})
                     \/ (h.place = "full" /\ h.byte \in {"empty", "deleted", "end"}) \/ (h.place = "empty" /\ h.byte \in {"full", "end"})
    [] k = "matrix" -> Count(h.rows, n) * Count(h.columns, n) > n * n
    [] k = "bitvec" -> h.size \in Huge \union {"block"} \/ (h.size = "zero" /\ n > 0)
    [] k \in {"vecvec", "nvec"} -> h.start \in Huge
    [] k = "fws" -> h.start \in Huge \/ h.complete \in {"two", "all"}
    [] k = "mmap" -> h.begin \in Huge \/ h.cap \in Huge \/ (h.size \in Huge)
    [] k = "paged" -> h.pstart \in Huge \/ h.pcap \in Huge \/ h.psize \in Huge

Verdict(k, n, aligned, h) == IF h = Orig(k) THEN "accept" ELSE IF Contradicts(k, n, aligned, h) THEN "reject" ELSE "safe"
Counts(k) == IF k \in {"vector", "string", "map"} THEN {0, 1, 2} ELSE IF k \in {"unique_ptr", "pointer"} THEN {0, 1} ELSE IF k = "ctrl" THEN {0, 2} ELSE {2}   \* ctrl: an emptied table, or one with elements
Aligns(k) == IF k \in {"vector", "string", "unique_ptr", "pointer"} THEN BOOLEAN ELSE {FALSE}
Possible(k, n, aligned) == ~(k = "string" /\ n # 2)      \* short texts are stored inline

VARIABLES touched, hist, done
vars == <<touched, hist, done>>
Log(op, args, obs) == hist' = Append(hist, <<op, args, obs>>) /\ UNCHANGED done

Init == touched = FALSE /\ hist = << >> /\ done = FALSE
(* a fresh image; every container of this kind in turn gets the header h; the verdict on all of these images *)
Header(k, n, aligned, h) == UNCHANGED touched /\ Log("header", <<k, n, aligned, h>>, Verdict(k, n, aligned, h))
Headers(k) ==
  LET all == Fields(k)
      with(S) == {[f \in DOMAIN all |-> IF f \in S THEN g[f] ELSE Orig(k)[f]] : g \in {x \in [S -> UNION {all[f] : f \in S}] : \A f \in S : x[f] \in all[f] \ {Orig(k)[f]}}}
  IN  UNION {with(S) : S \in {x \in SUBSET DOMAIN all : Cardinality(x) <= Most}}
Header_ == \E k \in Kinds : \E n \in Counts(k) : \E al \in Aligns(k) : Possible(k, n, al) /\ \E h \in Headers(k) : Header(k, n, al, h)

(* several alterations of one image *)
Image(seed) == touched' = FALSE /\ Log("image", <<seed>>, TRUE)
Field(box, field, sym) == touched' = TRUE /\ Log("field", <<box, field, sym>>, TRUE)
Byte(place, mask) == touched' = TRUE /\ Log("byte", <<place, mask>>, TRUE)
Copy(from, to) == touched' = TRUE /\ Log("copy", <<from, to>>, TRUE)
Move(from, to, n) == touched' = TRUE /\ Log("move", <<from, to, n>>, TRUE)
Cut(n) == touched' = TRUE /\ Log("cut", <<n>>, TRUE)
Load(mode) == UNCHANGED touched /\ Log("load", <<mode>>, IF touched THEN "safe" ELSE "accept")
Random == Ptrs \union Sizes \union Flags
Noise_ ==
  \E k \in {IF hist = << >> THEN 0 ELSE RandomElement(1..20)} :
    \/ k = 0 /\ Image(RandomElement(1..6))
    \/ k \in 1..5 /\ Field(RandomElement(0..999), RandomElement(0..15), RandomElement(Random))
    \/ k = 6 /\ Byte(RandomElement(0..9999), RandomElement({1, 2, 4, 8, 16, 32, 64, 128, 255, 127}))
    \/ k \in {7, 19} /\ Copy(RandomElement(0..999), RandomElement(0..999))
    \/ k \in {8, 20} /\ Move(RandomElement(0..9999), RandomElement(0..9999), RandomElement({1, 8, 16, 24, 40, 64, 200}))
    \/ k = 9 /\ Cut(RandomElement({1, 4, 8, 16, 64, 256, 1024}))
    \/ k \in 10..14 /\ Load(RandomElement(1..6))
    \/ k \in 15..18 /\ Image(RandomElement(1..6))

Step == IF Simulate THEN Noise_ ELSE Header_
Next == \/ Len(hist) < Depth /\ Step
        \/ Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<touched, hist>>
Spec == Init /\ [][Next]_vars
Sane == \A i \in DOMAIN hist : hist[i][1] \in {"header", "load"} => hist[i][3] \in {"accept", "reject", "safe"}
=============================================================================
