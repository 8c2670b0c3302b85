------------------------------ MODULE TypeHash ------------------------------
(* Versions of types.  A program declares structs; the last one is the root that is
   written and read.  A type is a kind, a number and argument types; "ref" names a
   declared struct.  Programs evolve by edits: fields added, removed, swapped,
   widened, wrapped, regrouped, pointees and lengths changed, structs renamed,
   duplicated, fields moved into or out of nested structs.
     Canon:  the structure up to the names of the structs,
     Unfold: the structure with all names replaced by what they stand for,
     Tokens: what the dynamic hash is a hash of (the end of a struct is not marked).
   Equal canonical forms have to be accepted, different unfoldings rejected. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Depth

T(k, n, a) == [k |-> k, n |-> n, a |-> a]
Leaf(k) == T(k, 0, << >>)
Scalars == {"u8", "u16", "u32", "u64", "f32", "f64", "e8", "e32"}
Texts == {"str", "cstr", "str16"}
Leaves == Scalars \union Texts \union {"bitvec", "void"}
Keys == {"u16", "u32", "u64", "str"}
Unary == {"ptr", "uptr", "vec", "vec64", "opt", "arr", "tup", "var", "vecvec", "idx", "strong", "matrix", "fws", "mm", "tp", "nvec", "paged"}
Numbered == {"arr", "mm", "tp", "nvec", "dur"}      \* length, size of the buckets, unit, dimensions, unit
Numb(k, n) == IF k \in Numbered THEN n ELSE 0
Refs(j) == T("ref", j, << >>)

VARIABLES decl, names, hist, done
vars == <<decl, names, hist, done>>

(* ------------------------------------------------------------- the structure *)
RECURSIVE Walk(_, _, _, _)       \* stack of types and closing marks, structs seen, text
Tag(t) == t.k \o (IF t.n = 0 THEN "" ELSE ToString(t.n))
IndexIn(s, x) == LET h == {i \in 1..Len(s) : s[i] = x} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
Walk(d, stack, seen, out) ==
  IF stack = << >> THEN out
  ELSE LET t == Head(stack) rest == Tail(stack) IN
    CASE t.k = "end" -> Walk(d, rest, seen, out \o ")")
      [] t.k = "ref" /\ IndexIn(seen, t.n) > 0 -> Walk(d, rest, seen, out \o "#" \o ToString(IndexIn(seen, t.n)) \o " ")
      [] t.k = "ref" /\ IndexIn(seen, t.n) = 0 -> Walk(d, d[t.n] \o <<Leaf("end")>> \o rest, Append(seen, t.n), out \o "(")
      [] OTHER -> Walk(d, t.a \o <<Leaf("end")>> \o rest, seen, out \o Tag(t) \o "(")
Canon(d) == Walk(d, <<Refs(Len(d))>>, << >>, "")

RECURSIVE Unf(_, _, _)
RECURSIVE All(_, _, _)
All(d, ts, depth) == IF ts = << >> THEN "" ELSE Unf(d, Head(ts), depth) \o All(d, Tail(ts), depth)
\* a strong or indexed T is laid out as a T, a std::pair as a pair: neither required to be accepted nor to be rejected
Unf(d, t, depth) == IF t.k \in {"strong", "idx"} THEN Unf(d, t.a[1], depth) ELSE IF t.k = "spair" THEN Unf(d, [t EXCEPT !.k = "pair"], depth) ELSE IF t.k = "ref" THEN (IF depth = 0 THEN "..." ELSE "(" \o All(d, d[t.n], depth - 1) \o ")") ELSE Tag(t) \o "(" \o All(d, t.a, depth) \o ")"
Unfold(d) == Unf(d, Refs(Len(d)), Len(d) + 1)

(* what the dynamic hash combines, in order *)
Counted == {"u8", "u16", "u32", "u64", "f32", "f64", "e8", "e32", "ptr", "ref", "bitvec", "vecvec", "matrix", "fws", "nvec", "paged", "void"}      \* remembered once seen
RECURSIVE Tok(_, _, _, _)
Tok(d, stack, seen, out) ==
  IF stack = << >> THEN out
  ELSE LET t == Head(stack) rest == Tail(stack) IN
      CASE t.k \in Counted /\ IndexIn(seen, t) > 0 -> Tok(d, rest, seen, out \o "#" \o ToString(IndexIn(seen, t)) \o " ")
      [] t.k = "ref" /\ IndexIn(seen, t) = 0 -> Tok(d, d[t.n] \o rest, Append(seen, t), out \o "struct ")
      [] t.k = "mm" -> Tok(d, <<Leaf("u32")>> \o t.a \o rest, seen, out \o Tag(t) \o " ")
      [] t.k \in {"pair", "spair"} -> Tok(d, t.a \o rest, seen, out \o "pair ")
      [] t.k = "map" -> Tok(d, t.a \o rest, seen, out \o "hash_storage pair ")
      [] t.k = "set" -> Tok(d, t.a \o rest, seen, out \o "hash_storage ")
      [] t.k = "idx" -> Tok(d, t.a \o rest, seen, out)
      [] t.k \in {"tup", "var"} -> Tok(d, t.a \o rest, seen, out \o t.k \o ToString(Len(t.a)) \o " ")
      [] OTHER -> Tok(d, t.a \o rest, IF t.k \in Counted THEN Append(seen, t) ELSE seen, out \o Tag(t) \o " ")
Tokens(d) == Tok(d, <<Refs(Len(d))>>, << >>, "")

(* ------------------------------------------------------- which programs compile *)
RECURSIVE Ok(_, _, _)        \* type, struct it is used in, directly behind a pointer
Ok(t, i, behind) ==
  CASE t.k = "ref" -> behind \/ t.n < i
    [] t.k \in {"ptr", "uptr", "vec"} -> Ok(t.a[1], i, TRUE)
    [] t.k \in {"set"} -> t.a[1].k \in Keys
    [] t.k = "map" -> t.a[1].k \in Keys /\ Ok(t.a[2], i, FALSE)
    [] t.k = "strong" -> t.a[1].k \in Scalars \ {"e8", "e32", "f32", "f64"}
    [] t.k \in {"dur", "tp"} -> t.a[1].k \in {"u32", "u64"}
    [] t.k = "matrix" -> t.a[1].k \in Scalars
    [] t.k = "vecvec" -> t.a[1].k \in Scalars
    [] t.k \in {"fws", "mm", "nvec"} -> t.a[1].k \in Scalars
    [] t.k = "paged" -> t.a[1].k \in {"u8", "u16", "u32"}
    [] t.k = "idx" -> t.a[1].k \in Texts \union {"bitvec"} \/ (t.a[1].k = "ref" /\ t.a[1].n < i)
    [] t.k = "var" -> /\ \A x \in 1..Len(t.a) : Ok(t.a[x], i, FALSE)
                      /\ Cardinality({t.a[x] : x \in 1..Len(t.a)}) = Len(t.a)
    [] OTHER -> \A x \in 1..Len(t.a) : Ok(t.a[x], i, FALSE)
RECURSIVE Weight(_)
RECURSIVE Sum(_)
Sum(ts) == IF ts = << >> THEN 0 ELSE Weight(Head(ts)) + Sum(Tail(ts))
Weight(t) == 1 + Sum(t.a)
RECURSIVE Fields(_, _)
Fields(d, i) == IF i > Len(d) THEN 0 ELSE Sum(d[i]) + Fields(d, i + 1)
Valid(d) == /\ Len(d) \in 1..4 /\ Fields(d, 1) <= 16
            /\ \A i \in 1..Len(d) : Len(d[i]) \in 1..6 /\ \A f \in 1..Len(d[i]) : Ok(d[i][f], i, FALSE)

(* ---------------------------------------------------------------------- edits *)
RECURSIVE Paths(_)           \* positions in a type
Paths(t) == {<< >>} \union UNION {{<<x>> \o p : p \in Paths(t.a[x])} : x \in 1..Len(t.a)}
RECURSIVE At(_, _)
At(t, p) == IF p = << >> THEN t ELSE At(t.a[Head(p)], Tail(p))
RECURSIVE Put(_, _, _)
Put(t, p, new) == IF p = << >> THEN new ELSE [t EXCEPT !.a[Head(p)] = Put(t.a[Head(p)], Tail(p), new)]
Cut(s, f) == SubSeq(s, 1, f - 1) \o SubSeq(s, f + 1, Len(s))
Ins(s, f, x) == SubSeq(s, 1, f - 1) \o <<x>> \o SubSeq(s, f, Len(s))
RECURSIVE Shift(_, _)        \* references after a struct was declared before the root
Shift(t, from) == [T(t.k, IF t.k = "ref" /\ t.n >= from THEN t.n + 1 ELSE t.n, << >>) EXCEPT !.a = [x \in 1..Len(t.a) |-> Shift(t.a[x], from)]]

Edits(d, i, f, p, leaf, un, n) ==       \* what may become of the program at this place
  LET t == At(d[i][f], p)
      with(new) == [d EXCEPT ![i][f] = Put(@, p, new)]
  IN  [leaf |-> with(Leaf(leaf)),
       wrap |-> with(T(un, Numb(un, n), <<t>>)),
       ref |-> with(Refs(1 + (n % Len(d)))),
       refptr |-> with(T("ptr", 0, <<Refs(1 + (n % Len(d)))>>)),
       unwrap |-> IF t.a = << >> THEN d ELSE with(t.a[1]),
       kind |-> IF t.a = << >> THEN d ELSE with(T(un, Numb(un, n), IF un \in {"tup", "var"} THEN t.a ELSE <<t.a[1]>>)),
       number |-> IF t.k \in Numbered THEN with([t EXCEPT !.n = n]) ELSE IF t.k = "bits" THEN with([t EXCEPT !.n = n * 64]) ELSE d,
       grow |-> IF t.k \in {"tup", "var"} THEN with([t EXCEPT !.a = Append(@, Leaf(leaf))]) ELSE with(T(IF n = 1 THEN "spair" ELSE "pair", 0, <<t, Leaf(leaf)>>)),
       group |-> IF t.k \in {"tup", "var"} /\ Len(t.a) >= 2 THEN with([t EXCEPT !.a = <<[t EXCEPT !.a = SubSeq(t.a, 1, Len(t.a) - 1)], t.a[Len(t.a)]>>]) ELSE d,
       group2 |-> IF t.k \in {"tup", "var"} /\ Len(t.a) >= 2 THEN with([t EXCEPT !.a = <<[t EXCEPT !.a = SubSeq(t.a, 1, 1)]>> \o SubSeq(t.a, 2, Len(t.a))]) ELSE d,
       map |-> with(T("map", 0, <<Leaf(IF leaf \in Keys THEN leaf ELSE "u32"), t>>)),
       set |-> with(T("set", 0, <<Leaf(IF leaf \in Keys THEN leaf ELSE "u64")>>)),
       dur |-> with(T("dur", n, <<Leaf(IF n % 2 = 0 THEN "u32" ELSE "u64")>>)),
       bits |-> with(T("bits", n * 64, << >>)),
       add |-> [d EXCEPT ![i] = Ins(@, f, Leaf(leaf))],
       remove |-> [d EXCEPT ![i] = Cut(@, f)],
       swap |-> IF f < Len(d[i]) THEN [d EXCEPT ![i] = Ins(Cut(@, f), f + 1, d[i][f])] ELSE d,
       extract |-> IF f < Len(d[i]) /\ i = Len(d) THEN Append([d EXCEPT ![i] = SubSeq(d[i], f, Len(d[i]))], SubSeq(d[i], 1, f - 1) \o <<Refs(i)>>) ELSE d,
       absorb |-> IF t.k = "ref" /\ p = << >> /\ t.n < i /\ f < Len(d[i]) THEN [d EXCEPT ![i] = Cut(@, f + 1), ![t.n] = Append(@, d[i][f + 1])] ELSE d,
       copy |-> IF t.k = "ref" /\ t.n < i /\ Len(d) < 4
                THEN LET e == [j \in 1..Len(d) |-> [g \in 1..Len(d[j]) |-> Shift(d[j][g], i)]]
                         c == SubSeq(e, 1, i - 1) \o <<e[t.n]>> \o SubSeq(e, i, Len(e))
                     IN  [c EXCEPT ![i + 1][f] = Put(@, p, Refs(i))] ELSE d,
       rename |-> d]
EditNames == {"leaf", "wrap", "ref", "refptr", "unwrap", "kind", "number", "grow", "group", "group2", "map", "set", "dur", "bits", "add", "remove", "swap", "extract", "absorb", "copy", "rename"}

R(S) == RandomElement(S)
Show(d, nm) == <<d, nm, Canon(d), Unfold(d), Tokens(d)>>
Init == /\ decl \in {<<<<Leaf("u32")>>, <<Leaf("u8"), Refs(1)>>>>,
                    <<<<Leaf("u64"), T("ptr", 0, <<Refs(2)>>)>>, <<T("uptr", 0, <<Refs(1)>>), Leaf("u16")>>>>,
                    <<<<T("vec", 0, <<Refs(1)>>), Leaf("str")>>, <<Refs(1), T("arr", 2, <<Leaf("f32")>>), Leaf("u8")>>>>}
        /\ names = 0 /\ hist = << >> /\ done = FALSE
Edit ==
  \E i \in {R(1..Len(decl))} : \E f \in {R(1..Len(decl[i]))} : \E p \in {R(Paths(decl[i][f]))} :
  \E l \in {R(Leaves)} : \E u \in {R(Unary)} : \E n \in {R(1..3)} : \E e \in {R(EditNames)} : \E nm \in {R(0..3)} :
    LET new == Edits(decl, i, f, p, l, u, n)[e] IN
    /\ decl' = (IF Valid(new) THEN new ELSE decl)
    /\ names' = nm
    /\ hist' = IF (Valid(new) /\ new # decl) \/ e = "rename" THEN Append(hist, Show(decl', nm)) ELSE hist
    /\ UNCHANGED done
Next == \/ Len(hist) < Depth /\ Edit
        \/ Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<decl, names, hist>>
Spec == Init /\ [][Next]_vars

(* every kind of type once, in a struct of its own, and every kind around a struct *)
Args == {Leaf("u8"), Leaf("u16"), Leaf("u32"), Leaf("f64"), Leaf("e8"), Leaf("str"), Refs(1)}
Numbers(k) == IF k \in Numbered THEN 1..3 ELSE {0}
Ones == {Leaf(l) : l \in Leaves} \union {Refs(1)}
   \union UNION {{T(k, n, <<a>>) : n \in Numbers(k), a \in Args \union {Leaf("u64")}} : k \in (Unary \union {"dur"}) \ {"tup", "var"}}
   \union {T("set", 0, <<a>>) : a \in Args} \union {T("bits", 64 * n, << >>) : n \in 1..3}
   \union {T(k, 0, <<a, b>>) : k \in {"pair", "map", "spair"}, a \in {Leaf("u16"), Leaf("u32"), Leaf("str")}, b \in {Leaf("u16"), Leaf("u32"), Leaf("str"), Refs(1)}}
   \union {T(k, 0, <<a>>) : k \in {"tup", "var"}, a \in Args}
   \union {T(k, 0, <<a, b>>) : k \in {"tup", "var"}, a \in Args, b \in {Leaf("u16"), Leaf("f32"), Leaf("str")}}
   \union {T(k, 0, <<Leaf("u8"), a, Leaf("f32")>>) : k \in {"tup", "var"}, a \in Args}
Twos == {T(k, Numb(k, 2), <<T(l, Numb(l, m), <<a>>)>>) : k \in {"vec", "arr", "opt", "tup", "ptr", "uptr"}, l \in {"vec", "arr", "ptr", "uptr", "opt", "mm", "tp", "vec64"}, m \in {1, 2}, a \in {Leaf("u16"), Leaf("u32")}}
First == <<Leaf("u16"), Leaf("u8")>>
Programs == {d \in {<<First, <<t, Leaf("u8")>>>> : t \in Ones \union Twos} : Valid(d)}
InitAll == decl \in Programs /\ names = 0 /\ hist = << >> /\ done = FALSE
NextAll == ~done /\ hist' = <<Show(decl, 0)>> /\ CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<decl, names>>
SpecAll == InitAll /\ [][NextAll]_vars

(* names alone never change the structure; the tokens are determined by the canonical form *)
Sound == \A i, j \in 1..Len(hist) : /\ hist[i][3] = hist[j][3] => hist[i][4] = hist[j][4] /\ hist[i][5] = hist[j][5]
                                   /\ hist[i][1] = hist[j][1] => hist[i][3] = hist[j][3]
=============================================================================
