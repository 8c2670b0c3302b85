------------------------------- MODULE Record -------------------------------
(* Two records whose fields hold values of all supported kinds, written to and read back from images.          *)
(* A field is a cell (one value), a list, a map, a list of lists or a bit vector.  Values are abstract codes:   *)
(* code 0 is the default constructed value of the type of the field.  Every step names the record, the field    *)
(* and the new value of that field; all other fields of both records must keep their values (frame).           *)
(* An object is `Fresh' (memory of its own), `Clean' (exactly the image it was read from) or `Dirty' (an image   *)
(* that was modified).  Reload serializes the record and reads the image; MoveImage copies a clean image.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Cells, Lists, Maps, Multis, Bits,   \* number of fields of each kind
          Codes, Keys, MaxLen, MaxBits, Modes, Depth, Phase, Moves,
          Every, AltModes,   \* enumeration: every Every-th step is a reload in one of these modes
          Sampled   \* simulation: arguments are drawn at random, else all of them are tried

Rec == [c : Seq(Nat), l : Seq(Seq(Nat)), m : Seq(Seq(Nat)), v : Seq(Seq(Seq(Nat))), b : Seq(Seq(Nat))]
VARIABLES r,        \* r[i]: record i
          st,       \* st[i]: state of its memory
          hist, done, mood
vars == <<r, st, hist, done, mood>>
C == 0 .. Codes
I == 1 .. 2
Q(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S
W(S) == IF Sampled /\ S # {} THEN {RandomElement(S), RandomElement(S), RandomElement(S), RandomElement(S)} ELSE S   \* more likely
Rare(k) == ~Sampled \/ RandomElement(1 .. k) = 1
Zero(n, x) == [k \in 1 .. n |-> x]
\* a map is a sequence over 1..Keys: 0 = key absent, otherwise value code + 1
New == [c |-> Zero(Cells, 0), l |-> Zero(Lists, <<>>), m |-> Zero(Maps, Zero(Keys, 0)), v |-> Zero(Multis, <<>>), b |-> Zero(Bits, <<>>)]
Init == r = [i \in I |-> New] /\ st = [i \in I |-> "Fresh"] /\ hist = <<>> /\ done = FALSE /\ mood = 0

ListOK(s) == Len(s) <= MaxLen /\ \A k \in DOMAIN s : s[k] \in C
TypeOK == \A i \in I : /\ \A f \in 1 .. Cells : r[i].c[f] \in C
                       /\ \A f \in 1 .. Lists : ListOK(r[i].l[f])
                       /\ \A f \in 1 .. Maps : Len(r[i].m[f]) = Keys /\ \A k \in 1 .. Keys : r[i].m[f][k] \in 0 .. Codes + 1
                       /\ \A f \in 1 .. Multis : Len(r[i].v[f]) <= MaxLen /\ \A k \in DOMAIN r[i].v[f] : ListOK(r[i].v[f][k])
                       /\ \A f \in 1 .. Bits : Len(r[i].b[f]) <= MaxBits

Mod(i) == IF st[i] = "Fresh" THEN "Fresh" ELSE "Dirty"
Step(op, args, exp) == hist' = Append(hist, <<op, args, exp>>) /\ done' = FALSE /\ mood' = IF Len(hist) % Phase = 0 THEN RandomElement(0 .. 5) ELSE mood
Put(op, i, kind, f, args, new) == /\ r' = [r EXCEPT ![i][kind][f] = new]
                                  /\ st' = [st EXCEPT ![i] = Mod(i)]
                                  /\ Step(op, <<i, kind, f>> \o args, new)
\* moved out of: the source is set to the default value afterwards
Take(op, i, kind, f, zero) == LET j == 3 - i IN
  /\ r' = [r EXCEPT ![i][kind][f] = r[j][kind][f], ![j][kind][f] = zero]
  /\ st' = [k \in I |-> Mod(k)]
  /\ Step(op, <<i, kind, f>>, <<r[j][kind][f], zero>>)

Cell(i, f) ==
  \/ \E x \in W(C), op \in Q({"set", "set_move"}) : Put(op, i, "c", f, <<x>>, x)
  \/ Put("reset", i, "c", f, <<>>, 0)
  \/ Put("copy", i, "c", f, <<>>, r[3 - i].c[f])
  \/ Put("self", i, "c", f, <<>>, r[i].c[f])
  \/ Put("rebuild", i, "c", f, <<>>, r[i].c[f])
  \/ Take("move", i, "c", f, 0)

Ins(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
Cut(s, p, q) == SubSeq(s, 1, p) \o SubSeq(s, q + 1, Len(s))
List(i, f) == LET s == r[i].l[f] n == Len(s) P(op, args, new) == Len(new) <= MaxLen /\ Put(op, i, "l", f, args, new) IN
  \/ \E x \in W(C), op \in Q({"push", "push_move"}) : P(op, <<x>>, Append(s, x))
  \/ n > 0 /\ P("pop", <<>>, SubSeq(s, 1, n - 1))
  \/ \E p \in Q(0 .. n), x \in W(C) : P("insert", <<p, x>>, Ins(s, p, x))
  \/ \E p \in Q(0 .. n - 1) : P("erase", <<p>>, Cut(s, p, p + 1))
  \/ Rare(3) /\ \E p \in Q(0 .. n) : \E q \in Q(p .. n) : P("erase_range", <<p, q>>, Cut(s, p, q))
  \/ \E p \in W(1 .. n), x \in Q(C) : P("write", <<p - 1, x>>, [s EXCEPT ![p] = x])
  \/ Rare(2) /\ \E m \in Q(0 .. MaxLen) : P("resize", <<m>>, IF m <= n THEN SubSeq(s, 1, m) ELSE s \o Zero(m - n, 0))
  \/ \E m \in Q(0 .. 2 * MaxLen) : P("reserve", <<m>>, s)
  \/ Rare(6) /\ P("clear", <<>>, <<>>)
  \/ Rare(6) /\ P("reset", <<>>, <<>>)
  \/ Rare(3) /\ P("copy", <<>>, r[3 - i].l[f])
  \/ Rare(3) /\ P("self", <<>>, s)
  \/ Rare(3) /\ P("rebuild", <<>>, s)
  \/ Rare(6) /\ \E x \in Q(C), m \in Q(0 .. MaxLen) : P("assign", <<m, x>>, Zero(m, x))
  \/ Rare(3) /\ Take("move", i, "l", f, <<>>)

Map(i, f) == LET s == r[i].m[f] P(op, args, new) == Put(op, i, "m", f, args, new) IN
  \/ \E k \in W(1 .. Keys), x \in W(C), op \in Q({"put", "put_index", "add"}) :
       P(op, <<k, x>>, IF op = "add" /\ s[k] # 0 THEN s ELSE [s EXCEPT ![k] = x + 1])
  \/ \E k \in W(1 .. Keys), op \in Q({"erase", "erase_it"}) : P(op, <<k>>, [s EXCEPT ![k] = 0])
  \/ Rare(6) /\ P("clear", <<>>, Zero(Keys, 0))
  \/ Rare(6) /\ P("reset", <<>>, Zero(Keys, 0))
  \/ P("rehash", <<>>, s)
  \/ Rare(3) /\ P("copy", <<>>, r[3 - i].m[f])
  \/ Rare(3) /\ P("rebuild", <<>>, s)
  \/ Rare(3) /\ Take("move", i, "m", f, Zero(Keys, 0))

Multi(i, f) == LET s == r[i].v[f] n == Len(s) P(op, args, new) == Len(new) <= MaxLen /\ Put(op, i, "v", f, args, new) IN
  \/ \E x \in W(C), m \in W(0 .. IF MaxLen < 4 THEN MaxLen ELSE 4) : P("add", <<m, x>>, Append(s, Zero(m, x)))
  \/ n > 0 /\ Len(s[n]) < MaxLen /\ \E x \in W(C) : P("grow", <<x>>, [s EXCEPT ![n] = Append(@, x)])
  \/ \E p \in W(1 .. n) : Len(s[p]) > 0 /\ \E x \in Q(C) : P("write", <<p - 1, x>>, [s EXCEPT ![p][1] = x])
  \/ Rare(6) /\ P("clear", <<>>, <<>>)
  \/ Rare(6) /\ P("reset", <<>>, <<>>)
  \/ Rare(3) /\ P("copy", <<>>, r[3 - i].v[f])
  \/ Rare(3) /\ P("rebuild", <<>>, s)
  \/ Rare(3) /\ Take("move", i, "v", f, <<>>)

Bit(i, f) == LET s == r[i].b[f] n == Len(s) P(op, args, new) == Put(op, i, "b", f, args, new) IN
  \/ Rare(2) /\ \E m \in Q({0, 1, 63, 64, 65, 127, 128, 129, 200}) : m <= MaxBits /\ P("resize", <<m>>, IF m <= n THEN SubSeq(s, 1, m) ELSE s \o Zero(m - n, 0))
  \/ n > 0 /\ \E p \in W(1 .. n), x \in Q(0 .. 1) : P("write", <<p - 1, x>>, [s EXCEPT ![p] = x])
  \/ Rare(6) /\ P("zero", <<>>, Zero(n, 0))
  \/ Rare(3) /\ P("one", <<>>, Zero(n, 1))
  \/ Rare(3) /\ P("copy", <<>>, r[3 - i].b[f])
  \/ Rare(3) /\ P("rebuild", <<>>, s)
  \/ Rare(3) /\ Take("move", i, "b", f, <<>>)

Reload(i, m) == st' = [st EXCEPT ![i] = "Clean"] /\ r' = r /\ Step("reload", <<i, "x", m>>, TRUE)
MoveImage(i) == st[i] = "Clean" /\ UNCHANGED <<r, st>> /\ Step("move_image", <<i, "x", 0>>, TRUE)
Fresh(i) == r' = [r EXCEPT ![i] = New] /\ st' = [st EXCEPT ![i] = "Fresh"] /\ Step("fresh", <<i, "x", 0>>, TRUE)

Some(n) == IF n = 0 THEN {} ELSE {RandomElement(1 .. n)}
\* simulation: fields picked at random, the mood decides which sort of fields is busy
Choose(i, d) == CASE d <= 4 -> \E m \in {RandomElement(1 .. Modes)} : Reload(i, m)
  [] d <= Moves -> IF st[i] = "Clean" THEN MoveImage(i) ELSE \E m \in {RandomElement(1 .. Modes)} : Reload(i, m)
  [] d = Moves + 1 -> Fresh(i)
  [] OTHER -> \E k \in {IF d < 60 + Moves \div 2 THEN mood ELSE RandomElement(1 .. 5)} :
       CASE k = 1 /\ Cells > 0 -> \E f \in Some(Cells) : Cell(i, f)
         [] k = 2 /\ Lists > 0 -> \E f \in Some(Lists) : List(i, f)
         [] k = 3 /\ Maps > 0 -> \E f \in Some(Maps) : Map(i, f)
         [] k = 4 /\ Multis > 0 -> \E f \in Some(Multis) : Multi(i, f)
         [] k = 5 /\ Bits > 0 -> \E f \in Some(Bits) : Bit(i, f)
         [] OTHER -> IF Cells + Lists > 0 THEN \E g \in Some(Cells + Lists) : IF g <= Cells THEN Cell(i, g) ELSE List(i, g - Cells)
                     ELSE \E f \in Some(Maps) : Map(i, f)
Next == /\ ~done /\ Len(hist) < Depth
        /\ \E i \in {RandomElement(I)}, d \in {RandomElement(1 .. 100)} :
             \/ \E m \in {RandomElement(1 .. Modes)} : Reload(i, m)
             \/ Choose(i, d)
Finish == ~done /\ Len(hist) = Depth /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<r, st, hist, mood>>
Spec == Init /\ [][Next \/ Finish]_vars

\* ---- exhaustive: every transition of small instances, and every short history followed by a reload
Full == ~done /\ Len(hist) < Depth /\ \E i \in I :
       \/ \E f \in 1 .. Cells : Cell(i, f)
       \/ \E f \in 1 .. Lists : List(i, f)
       \/ \E f \in 1 .. Maps : Map(i, f)
       \/ \E f \in 1 .. Multis : Multi(i, f)
       \/ \E f \in 1 .. Bits : Bit(i, f)
       \/ \E m \in 1 .. Modes : Reload(i, m)
       \/ MoveImage(i)
       \/ Fresh(i)
FullSpec == Init /\ [][Full \/ Finish]_vars
\* one record, operations and reloads in turn
Alternate == ~done /\ Len(hist) < Depth /\
  IF Len(hist) % Every = Every - 1 THEN \E m \in AltModes : Reload(1, m)
  ELSE \/ \E f \in 1 .. Cells : Cell(1, f)
       \/ \E f \in 1 .. Lists : List(1, f)
       \/ \E f \in 1 .. Maps : Map(1, f)
       \/ \E f \in 1 .. Multis : Multi(1, f)
       \/ \E f \in 1 .. Bits : Bit(1, f)
AltSpec == Init /\ [][Alternate \/ Finish]_vars
\* a step changes at most the fields it names
Frame == [][\A i \in I : \A k \in {"c", "l", "m", "v", "b"} : \A f \in DOMAIN r[i][k] :
             r'[i][k][f] # r[i][k][f] => Len(hist') > Len(hist) /\ LET a == hist'[Len(hist')] IN
               \/ a[2][2] = k /\ a[2][3] = f /\ (a[2][1] = i \/ a[1] = "move")
               \/ a[1] = "fresh" /\ a[2][1] = i]_vars
\* reading an image changes no value
Faithful == [][Len(hist') > Len(hist) /\ hist'[Len(hist')][1] \in {"reload", "move_image"} => r' = r]_vars
View == <<r, st>>
=============================================================================
