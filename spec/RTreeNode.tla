------------------------------ MODULE RTreeNode ------------------------------
(* Design: a one dimensional R-tree with at most MaxItems items per node.  Which
   subtree receives an entry, how a full node is divided, and whether a rectangle
   is tightened after a deletion are free choices; what must hold is that every
   rectangle covers what is below it, so that search may prune by it.
   Trees are nested values: <<"leaf", items>> / <<"branch", items>>, an item being
   <<lo, hi, entry or subtree>>. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxItems, MaxEntries, C
VARIABLES tree, bag          \* bag: set of <<lo, hi, id>> with unique ids
vars == <<tree, bag>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Lo(items) == Min({items[k][1] : k \in 1..Len(items)})
Hi(items) == Max({items[k][2] : k \in 1..Len(items)})
Box(t) == <<Lo(t[2]), Hi(t[2]), t>>
Pick(items, S) == LET R(k) == k \in S IN
   LET RECURSIVE go(_) 
       go(k) == IF k > Len(items) THEN << >> ELSE (IF R(k) THEN <<items[k]>> ELSE << >>) \o go(k + 1) IN go(1)
\* all divisions of a node into two non empty ones (the first item stays left: sides are symmetric)
Splits(t) == {<<<<t[1], Pick(t[2], S)>>, <<t[1], Pick(t[2], (1..Len(t[2])) \ S)>>>> : S \in {X \in SUBSET (1..Len(t[2])) : 1 \in X /\ X # 1..Len(t[2])}}
\* insertion into a node that may have to be split: the set of possible results, each a sequence of one or two trees
RECURSIVE Ins(_, _)
AddItems(t, items) == IF Len(items) <= MaxItems THEN {<<<<t[1], items>>>>} ELSE Splits(<<t[1], items>>)
Ins(t, e) ==
  IF t[1] = "leaf" THEN AddItems(t, Append(t[2], e))
  ELSE UNION {UNION {
        IF Len(r) = 1 THEN {<<<<"branch", [t[2] EXCEPT ![k] = <<IF e[1] < @[1] THEN e[1] ELSE @[1], IF e[2] > @[2] THEN e[2] ELSE @[2], r[1]>>]>>>>}
        ELSE AddItems(t, Append([t[2] EXCEPT ![k] = Box(r[1])], Box(r[2])))
        : r \in Ins(t[2][k][3], e)} : k \in 1..Len(t[2])}
Without(items, k) == SubSeq(items, 1, k - 1) \o SubSeq(items, k + 1, Len(items))
\* deletion descends only into rectangles that contain the entry; << >> is an empty tree
RECURSIVE Del(_, _)
Del(t, e) ==
  IF t[1] = "leaf" THEN {<<"leaf", Without(t[2], k)>> : k \in {j \in 1..Len(t[2]) : t[2][j] = e}}
  ELSE UNION {UNION {
        IF r[2] = << >> THEN {<<"branch", Without(t[2], k)>>}
        ELSE {<<"branch", [t[2] EXCEPT ![k] = Box(r)]>>, <<"branch", [t[2] EXCEPT ![k][3] = r]>>}
        : r \in Del(t[2][k][3], e)} : k \in {j \in 1..Len(t[2]) : t[2][j][1] <= e[1] /\ e[2] <= t[2][j][2]}}
Nil == <<"leaf", << >>>>
Init == tree = Nil /\ bag = {}
Id == CHOOSE i \in 1..(MaxEntries + 1) : \A e \in bag : e[3] # i
Insert(lo, hi) == /\ Cardinality(bag) < MaxEntries
                  /\ LET e == <<lo, hi, Id>> IN
                     /\ bag' = bag \cup {e}
                     /\ \E r \in Ins(tree, e) : tree' = IF Len(r) = 1 THEN r[1] ELSE <<"branch", <<Box(r[1]), Box(r[2])>>>>
RECURSIVE Collapse(_)
Collapse(t) == IF t[1] = "branch" /\ Len(t[2]) = 1 THEN Collapse(t[2][1][3]) ELSE t
Delete(e) == /\ bag' = bag \ {e}
             /\ \E r \in Del(tree, e) : tree' = IF r[2] = << >> THEN Nil ELSE IF Cardinality(bag') = 1 THEN Collapse(r) ELSE r
Next == (\E lo \in 0..C, hi \in 0..C : lo <= hi /\ Insert(lo, hi)) \/ (\E e \in bag : Delete(e))
Spec == Init /\ [][Next]_vars
RECURSIVE Entries(_)
Entries(t) == IF t[1] = "leaf" THEN {t[2][k] : k \in 1..Len(t[2])} ELSE UNION {Entries(t[2][k][3]) : k \in 1..Len(t[2])}
RECURSIVE Total(_)
Total(t) == IF t[1] = "leaf" THEN Len(t[2]) ELSE LET S[k \in 0..Len(t[2])] == IF k = 0 THEN 0 ELSE S[k - 1] + Total(t[2][k][3]) IN S[Len(t[2])]
RECURSIVE Search(_, _, _)
Search(t, lo, hi) == LET hit == {k \in 1..Len(t[2]) : t[2][k][1] <= hi /\ lo <= t[2][k][2]} IN
   IF t[1] = "leaf" THEN {t[2][k] : k \in hit} ELSE UNION {Search(t[2][k][3], lo, hi) : k \in hit}
RECURSIVE Shape(_)
Shape(t) == IF t[1] = "leaf" THEN {0} ELSE {d + 1 : d \in UNION {Shape(t[2][k][3]) : k \in 1..Len(t[2])}}
Refines == Entries(tree) = bag /\ Total(tree) = Cardinality(bag)
Exact == \A lo \in 0..C : \A hi \in lo..C : Search(tree, lo, hi) = {e \in bag : e[1] <= hi /\ lo <= e[2]}
Balanced == Cardinality(Shape(tree)) = 1
Deletable == \A e \in bag : Del(tree, e) # {}
=============================================================================
