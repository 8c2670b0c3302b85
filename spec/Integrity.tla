----------------------------- MODULE Integrity -----------------------------
(* Which altered images are rejected.  An image consists of an optional type
   version (8 bytes), an optional checksum (8 bytes) and the data.  Someone
   changes bytes, cuts the image off or appends to it, possibly undoing it
   again.  A reader that checks the version rejects a changed version; a reader
   that checks integrity rejects any change of checksum or data and any other
   length.  Headers that the reader is told to skip may hold anything. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Depth, Types, Simulate
Regions == {"version", "sum", "data"}
Places(r) == IF r = "data" THEN 0..16 ELSE 0..7     \* position: 16ths of the data, bytes of a header
Masks == {1, 16, 128, 255}
Targets == {"buffer", "reused", "mapped", "file"}
Versions == {"none", "dynamic", "static"}
Extras == {"plain", "deep", "unchecked", "cast"}
Forms == {"container", "range", "chars", "const", "unaligned"}

VARIABLES wv, wi, be, type, changes, delta, written, hist, done
vars == <<wv, wi, be, type, changes, delta, written, hist, done>>
Log(op, args, obs) == hist' = Append(hist, <<op, args, obs>>) /\ UNCHANGED done

Init == wv = "none" /\ wi = FALSE /\ be = FALSE /\ type = 1 /\ changes = {} /\ delta = 0 /\ written = FALSE /\ hist = << >> /\ done = FALSE

Write(v, i, b, t, tg) ==
  /\ wv' = v /\ wi' = i /\ be' = b /\ type' = t /\ changes' = {} /\ delta' = 0 /\ written' = TRUE
  /\ Log("write", <<v, i, b, t, tg>>, (IF v = "none" THEN 0 ELSE 8) + (IF i THEN 8 ELSE 0))

Present(r) == (r = "version" => wv # "none") /\ (r = "sum" => wi)
Flip(r, p, m) ==
  /\ changes' = IF <<r, p, m>> \in changes THEN changes \ {<<r, p, m>>} ELSE changes \union {<<r, p, m>>}
  /\ UNCHANGED <<wv, wi, be, type, delta, written>> /\ Log("flip", <<r, p, m>>, TRUE)
CanFlip(r, p, m) == Present(r) /\ \A c \in changes : c[1] = r /\ c[2] = p => c[3] = m
Resize(d) == delta' = d /\ UNCHANGED <<wv, wi, be, type, changes, written>> /\ Log("resize", <<d>>, TRUE)

Changed(r) == \E c \in changes : c[1] = r
Verdict(rv, ri) ==
  IF (rv \in {"dynamic", "static"} /\ Changed("version")) \/ (ri = "with" /\ (Changed("sum") \/ Changed("data") \/ delta # 0)) THEN "reject"
  ELSE IF ~Changed("data") /\ delta = 0 THEN "accept" ELSE "any"
(* the reader expects the headers that are there *)
Reads == {r \in (Versions \union {"skip"}) \X {"none", "with", "skip"} :
            /\ (wv = "none") = (r[1] = "none") /\ r[1] \in {wv, "skip", "none"}
            /\ wi = (r[2] # "none")}
CanForm(f, x, rv, ri) == (x = "cast" => ~be /\ rv \in {"none", "skip"} /\ ri \in {"none", "skip"}) /\ (f \in {"const", "unaligned"} => ~be) /\ (f # "container" => x = "plain")
Read(rv, ri, x, f) == UNCHANGED <<wv, wi, be, type, changes, delta, written>> /\ Log("read", <<rv, ri, x, f>>, Verdict(rv, ri))
(* every single byte of a region changed in turn; every shorter and some longer images: the verdict on all of them *)
Sweep(r, m, rv, ri) ==
  /\ UNCHANGED <<wv, wi, be, type, changes, delta, written>>
  /\ Log("sweep", <<r, m, rv, ri>>, IF (r = "version" /\ rv # "skip") \/ (r # "version" /\ ri = "with") THEN "reject" ELSE IF r = "data" THEN "any" ELSE "accept")
SweepLength(rv, ri) == UNCHANGED <<wv, wi, be, type, changes, delta, written>> /\ Log("lengths", <<rv, ri>>, IF ri = "with" THEN "reject" ELSE "any")

Write_ == \E v \in Versions : \E i, b \in BOOLEAN : \E t \in Types : \E tg \in Targets : Write(v, i, b, t, tg)
Read_ == \E r \in Reads : \E x \in Extras : \E f \in Forms : CanForm(f, x, r[1], r[2]) /\ Read(r[1], r[2], x, f)
Flip_ == \E r \in Regions : \E p \in Places(r) : \E m \in Masks : CanFlip(r, p, m) /\ Flip(r, p, m)
Undo_ == \E c \in changes : Flip(c[1], c[2], c[3])
Resize_ == \E d \in {0, 1, 2, 3, 7, 8, 9, 16, 64} : \E s \in {1, 0 - 1} : Resize(s * d)
Sweep_ == \E r \in Reads : (\E g \in Regions : \E m \in Masks : Present(g) /\ Sweep(g, m, r[1], r[2])) \/ SweepLength(r[1], r[2])

Step == IF ~written THEN Write_
        ELSE IF Simulate THEN \E k \in {RandomElement(1..12)} :
               CASE k = 1 -> Write_ [] k \in {2, 3} -> Flip_ [] k = 4 -> (changes # {} /\ Undo_) \/ (changes = {} /\ Read_) [] k = 5 -> Resize_ [] k = 6 -> Resize(0) [] k = 7 -> Sweep_ [] OTHER -> Read_
        ELSE IF Len(hist) = 1 THEN Read_ \/ Sweep_ \/ \E r \in Regions : \E p \in Places(r) \intersect {0, 7, 16} : CanFlip(r, p, 1) /\ Flip(r, p, 1)
        ELSE Read_
Finish == /\ ~done /\ (Len(hist) = Depth \/ (~Simulate /\ Len(hist) = 2 /\ hist[2][1] # "flip"))
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<wv, wi, be, type, changes, delta, written, hist>>
Next == (Len(hist) < Depth /\ ~(~Simulate /\ Len(hist) = 2 /\ hist[2][1] # "flip") /\ Step) \/ Finish
Spec == Init /\ [][Next]_vars

(* what the property says, on the model: nothing altered is accepted under an integrity check, the intact image always is *)
Sound == \A r \in Reads : written =>
           /\ (changes = {} /\ delta = 0) => Verdict(r[1], r[2]) = "accept"
           /\ (r[2] = "with" /\ ((\E c \in changes : c[1] # "version") \/ delta # 0)) => Verdict(r[1], r[2]) = "reject"
           /\ (r[1] = "skip" /\ r[2] # "with" /\ ~Changed("data") /\ delta = 0) => Verdict(r[1], r[2]) = "accept"
=============================================================================
