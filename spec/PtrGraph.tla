------------------------------ MODULE PtrGraph ------------------------------
(* A world of objects linked by plain pointers, and what is left of the links in the copy that is read back from an image.

   Nodes 1..NN: a node is not there yet ("none"), owned by one of the members of the world ("list", "map", "maybe", "var"),
   owned by another node ("child", "twin") or by something outside of the world ("out").
   Pools 0..NN+1: vectors whose elements are addressable. Pool 0 and pool NN+1 belong to the world, pool n to node n.
   A pool has room for Cap elements, size[p] of them exist.

   A target is <<kind, a, b>>:
     n  node a             nt its addressable tag    no the tag it owns        np a tag that is merely a member of it
     pl element b of pool a                          it the addressable tag in that element
     wm the world's addressable tag, mk a element a of a vector of addressable tags, sg a value a of a map of addressable tags
     root the world itself
     wp du di    a member of the world, elements of plain vectors: neither owned on their own nor addressable
     xt xi xw    a tag, an item and a world outside                         null
   A slot is <<kind, a, b, field>>: w = world, n = node a, i = element b of pool a. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS NN, Cap, Root, Bare,      \* Root: the world is addressable itself
          Depth, Slots0       \* Slots0: number of slots of the enumeration
VARIABLES place, list, size, ptr, hist, done
vars == <<place, list, size, ptr, hist, done>>

Nodes == 1..NN
Pools == 0..(NN + 1)
NodeF == {"first", "m1", "m2", "tagowner", "ownowner", "last"}
WNodeF == {"first", "p1", "p2", "p3", "r1", "r2", "either", "opt", "pair", "tuple", "markowner", "last"}
FieldSeq == <<"first", "m1", "m2", "world", "tag", "item", "tagowner", "ownowner", "last">>          \* of a node
WFieldSeq == <<"first", "p1", "p2", "p3", "r1", "r2", "either", "opt", "pair", "tuple", "tag", "item", "markowner", "last">>
IFieldSeq == <<"n", "t", "i">>
Range(s) == {s[k] : k \in 1..Len(s)}
\* Bare: no nodes, no tags: nothing but elements of addressable vectors can be referred to
Slots == IF Bare THEN {<<"w", 0, 0, f>> : f \in {"item"}} \cup {<<"i", p, k, "i">> : p \in Pools, k \in 1..Cap}
         ELSE {<<"w", 0, 0, f>> : f \in Range(WFieldSeq)} \cup {<<"n", n, 0, f>> : n \in Nodes, f \in Range(FieldSeq)}
         \cup {<<"i", p, k, f>> : p \in Pools, k \in 1..Cap, f \in Range(IFieldSeq)}
Null == <<"null", 0, 0>>
Exists(n) == place[n][1] # "none"
PoolThere(p) == p \in {0, NN + 1} \/ (p \in Nodes /\ Exists(p))
NodeTargets == {<<"n", n, 0>> : n \in {m \in Nodes : Exists(m)}}
TagTargets == {<<k, n, 0>> : k \in {"nt", "no", "np"}, n \in {m \in Nodes : Exists(m)}}
              \cup {<<"it", p, k>> : p \in {q \in Pools : PoolThere(q)}, k \in 1..Cap}
              \cup {<<k, 0, 0>> : k \in {"wm", "wp", "xt"}} \cup {<<k, j, 0>> : k \in {"mk", "sg", "du"}, j \in 1..2}
ItemTargets == {<<"pl", p, k>> : p \in {q \in Pools : PoolThere(q)}, k \in 1..Cap} \cup {<<"di", 1, 0>>, <<"xi", 0, 0>>}
WorldTargets == {<<"root", 0, 0>>, <<"xw", 0, 0>>}
Kind(s) == CASE s[4] = "world" -> "W" [] s[4] \in {"tag", "t"} -> "T" [] s[4] \in {"item", "i"} -> "I" [] OTHER -> "N"
Targets(s) == {Null} \cup (CASE Kind(s) = "W" -> WorldTargets [] Kind(s) = "T" -> TagTargets [] Kind(s) = "I" -> ItemTargets [] OTHER -> NodeTargets)

Init == /\ place = [n \in Nodes |-> <<"none", 0>>] /\ list = << >> /\ size = [p \in Pools |-> 0]
        /\ ptr = [s \in Slots |-> Null] /\ hist = << >> /\ done = FALSE

-----------------------------------------------------------------------------
RECURSIVE Below(_, _)
Below(n, m) == n = m \/ (place[n][1] \in {"child", "twin"} /\ Below(place[n][2], m))       \* n is m or owned (indirectly) by m
RECURSIVE InGraph(_)
InGraph(n) == CASE place[n][1] \in {"none", "out"} -> FALSE
                [] place[n][1] \in {"child", "twin"} -> InGraph(place[n][2])
                [] OTHER -> TRUE
Single == {"maybe", "var"}
Free(k, m) == CASE k \in Single -> \A x \in Nodes : place[x][1] # k
                [] k \in {"child", "twin"} -> Exists(m) /\ \A x \in Nodes : place[x] # <<k, m>>
                [] OTHER -> TRUE
Places == {<<k, 0>> : k \in {"list", "map", "maybe", "var", "out"}} \cup {<<k, m>> : k \in {"child", "twin"}, m \in Nodes}
Without(s, n) == SelectSeq(s, LAMBDA x : x # n)
Put(n, q) == /\ place' = [place EXCEPT ![n] = q]
             /\ list' = IF q[1] = "list" THEN Append(Without(list, n), n) ELSE Without(list, n)
\* what a pointer of the copy refers to
PoolOf(t) == t[2]
Part(t) == CASE t[1] \in {"n", "nt", "no", "np"} -> InGraph(t[2])
             [] t[1] \in {"pl", "it"} -> (t[2] \in {0, NN + 1} \/ InGraph(t[2])) /\ t[3] <= size[t[2]]
             [] t[1] \in {"null", "xt", "xi", "xw"} -> FALSE
             [] OTHER -> TRUE
Addressable(t) == t[1] \in {"n", "nt", "no", "pl", "it", "wm", "mk", "sg"} \/ (Root /\ t[1] = "root")
Kept(s) == Part(ptr[s]) /\ Addressable(ptr[s])
Text(s) == s[1] \o "." \o ToString(s[2]) \o "." \o ToString(s[3]) \o "." \o s[4] \o ">" \o ptr[s][1] \o "." \o ToString(ptr[s][2]) \o "." \o ToString(ptr[s][3])
RECURSIVE Join(_)
Join(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Join(Tail(ss))
Texts(k, a, b, fs) == LET sel == SelectSeq(fs, LAMBDA f : <<k, a, b, f>> \in Slots /\ Kept(<<k, a, b, f>>)) IN [j \in 1..Len(sel) |-> Text(<<k, a, b, sel[j]>>)]
PoolTexts(p) == Join([k \in 1..size[p] |-> Texts("i", p, k, IFieldSeq)])
Links == Texts("w", 0, 0, WFieldSeq) \o PoolTexts(0)
         \o Join([n \in Nodes |-> IF InGraph(n) THEN Texts("n", n, 0, FieldSeq) \o PoolTexts(n) ELSE << >>])
         \o PoolTexts(NN + 1)

-----------------------------------------------------------------------------
Log(op, args, res) == hist' = Append(hist, <<op, args, res>>) /\ UNCHANGED done
Create(n, q) == /\ ~Exists(n) /\ Free(q[1], q[2]) /\ Put(n, q) /\ UNCHANGED <<size, ptr>> /\ Log("create", <<n, q[1], q[2]>>, 0)
Move(n, q) == /\ Exists(n) /\ place[n] # q /\ Free(q[1], q[2]) /\ (q[1] \in {"child", "twin"} => ~Below(q[2], n))
              /\ Put(n, q) /\ UNCHANGED <<size, ptr>> /\ Log("move", <<n, q[1], q[2]>>, 0)
Owner(s) == CASE s[1] = "w" -> TRUE [] s[1] = "n" -> Exists(s[2]) [] OTHER -> PoolThere(s[2]) /\ s[3] <= size[s[2]]
Point(s, t) == /\ Owner(s) /\ t \in Targets(s) /\ ptr' = [ptr EXCEPT ![s] = t] /\ UNCHANGED <<place, list, size>> /\ Log("point", <<s, t>>, 0)
Push(p) == /\ PoolThere(p) /\ size[p] < Cap /\ size' = [size EXCEPT ![p] = @ + 1] /\ UNCHANGED <<place, list, ptr>> /\ Log("push", <<p>>, 0)
Pop(p) == /\ PoolThere(p) /\ size[p] > 0 /\ size' = [size EXCEPT ![p] = @ - 1]
          /\ ptr' = [s \in Slots |-> IF s[1] = "i" /\ s[2] = p /\ s[3] = size[p] THEN Null ELSE ptr[s]]
          /\ UNCHANGED <<place, list>> /\ Log("pop", <<p>>, 0)
Swap(j, k) == /\ j < k /\ k <= Len(list) /\ list' = [list EXCEPT ![j] = list[k], ![k] = list[j]]
              /\ UNCHANGED <<place, size, ptr>> /\ Log("swap", <<j, k>>, 0)
Save == UNCHANGED <<place, list, size, ptr>> /\ Log("save", <<list>>, Links)

-----------------------------------------------------------------------------
TypeOK == /\ \A n \in Nodes : place[n][1] \in {"child", "twin"} => Exists(place[n][2])
          /\ Range(list) = {n \in Nodes : place[n][1] = "list"} /\ Len(list) = Cardinality(Range(list))
          /\ \A s \in Slots : ptr[s] # Null => Owner(s)
\* who owns whom is a forest
Forest == \A n \in Nodes : place[n][1] \in {"child", "twin"} => ~Below(place[n][2], n)

Finish == ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<place, list, size, ptr, hist>>
RandomSlot == LET ns == {n \in Nodes : Exists(n)}
                  is == {<<p, k>> \in Pools \X (1..Cap) : PoolThere(p) /\ k <= size[p]}
                  w == RandomElement(1..10)
                  kk == IF w <= 3 \/ ns = {} THEN 1 ELSE IF w <= 8 \/ is = {} THEN 2 ELSE 3 IN
              IF kk = 1 THEN <<"w", 0, 0, RandomElement(Range(WFieldSeq))>>
              ELSE IF kk = 2 THEN <<"n", RandomElement(ns), 0, RandomElement(Range(FieldSeq))>>
              ELSE LET i == RandomElement(is) IN <<"i", i[1], i[2], RandomElement(Range(IFieldSeq))>>
SimStep(r) == CASE r <= 3 /\ (\E n \in Nodes : ~Exists(n)) ->
                     \E n \in {RandomElement({m \in Nodes : ~Exists(m)})}, q \in {RandomElement({x \in Places : Free(x[1], x[2])})} : Create(n, q)
                [] r = 4 /\ (\E n \in Nodes : Exists(n)) ->
                     \E n \in {RandomElement({m \in Nodes : Exists(m)})} :
                       \E q \in {RandomElement({x \in Places : Free(x[1], x[2]) /\ (x[1] \in {"child", "twin"} => ~Below(x[2], n))} \cup {place[n]})} :
                         IF q = place[n] THEN Save ELSE Move(n, q)
                [] r = 5 -> \E p \in {RandomElement({q \in Pools : PoolThere(q)})} : IF size[p] < Cap THEN Push(p) ELSE Pop(p)
                [] r = 6 -> \E p \in {RandomElement({q \in Pools : PoolThere(q)})} : IF size[p] > 0 /\ RandomElement(1..3) = 1 THEN Pop(p) ELSE IF size[p] < Cap THEN Push(p) ELSE Save
                [] r = 7 /\ Len(list) >= 2 -> \E j \in {RandomElement(1..(Len(list) - 1))} : Swap(j, RandomElement((j + 1)..Len(list)))
                [] r = 8 /\ RandomElement(1..3) = 1 -> Save
                [] OTHER -> \E s \in {RandomSlot} : \E t \in {RandomElement(Targets(s))} : Point(s, t)
SimNext == \/ ~done /\ Len(hist) < Depth - 1 /\ \E r \in {RandomElement(1..16)} : SimStep(r)
           \/ ~done /\ Len(hist) = Depth - 1 /\ Save
           \/ Len(hist) = Depth /\ Finish
BareNext == \/ ~done /\ Len(hist) < Depth - 1 /\ \E r \in {RandomElement(1..8)} :
                  CASE r <= 3 -> \E p \in {RandomElement(Pools)} : IF size[p] < Cap THEN Push(p) ELSE Pop(p)
                    [] r = 4 -> Save
                    [] OTHER -> \E s \in {RandomElement({x \in Slots : Owner(x)})} : \E t \in {RandomElement(Targets(s))} : Point(s, t)
            \/ ~done /\ Len(hist) = Depth - 1 /\ Save
            \/ Len(hist) = Depth /\ Finish
BareSpec == Init /\ [][BareNext]_vars
SimSpec == Init /\ [][SimNext]_vars

\* enumeration: all places of the nodes and all assignments of a few slots
EnumSlots == <<<<"w", 0, 0, "first">>, <<"n", 1, 0, "first">>, <<"n", 1, 0, "last">>, <<"n", 2, 0, "first">>, <<"n", 2, 0, "last">>, <<"w", 0, 0, "last">>>>
EnumNext == \/ ~done /\ Len(hist) < NN /\ \E q \in Places : Create(Len(hist) + 1, q)
            \/ ~done /\ Len(hist) >= NN /\ Len(hist) < NN + Slots0 /\ \E t \in Targets(EnumSlots[Len(hist) - NN + 1]) : Point(EnumSlots[Len(hist) - NN + 1], t)
            \/ ~done /\ Len(hist) = NN + Slots0 /\ Save
            \/ Len(hist) = NN + Slots0 + 1 /\ Finish
EnumSpec == Init /\ [][EnumNext]_vars
\* enumeration: every slot and every target it can have
OneNext == \/ ~done /\ Len(hist) < NN /\ \E q \in Places : Create(Len(hist) + 1, q)
           \/ ~done /\ Len(hist) = NN /\ (Push(0) \/ Push(1) \/ Push(NN + 1))
           \/ ~done /\ Len(hist) = NN + 1 /\ \E s \in Slots : \E t \in Targets(s) \ {Null} : Point(s, t)
           \/ ~done /\ Len(hist) = NN + 2 /\ Save
           \/ Len(hist) = NN + 3 /\ Finish
OneSpec == Init /\ [][OneNext]_vars
\* the places and moves of the nodes alone
McNext == Len(hist) < Depth /\ ((\E n \in Nodes, q \in Places : Create(n, q) \/ Move(n, q)) \/ (\E p \in Pools : Push(p) \/ Pop(p)))
McSpec == Init /\ [][McNext]_vars
McView == <<place, list, size, ptr>>
=============================================================================
