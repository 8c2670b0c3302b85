------------------------------ MODULE PtrWalk ------------------------------
(* How serialization finds out where pointers refer to: objects are visited in the order of their owners, the position of an
   addressable object is noted when it is written, a pointer whose target has no position yet is put aside and resolved
   after the walk. Checked against what is demanded: every pointer to an addressable object of the graph is kept.

   Objects 1..N, object 1 is the root. Every object has two fields that are an owner or a pointer each.
   Addressable: the objects owned by a pointer, or marked. "inline" objects are part of their owner (a member). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N
VARIABLES own, ptr, kind, todo, written, note, aside, res, phase
vars == <<own, ptr, kind, todo, written, note, aside, res, phase>>
Obj == 1..N
\* own[o]: the owner of object o and the field (0 = nobody: outside); kind[o]: how it is held
Kinds == {"owned", "member", "marked"}
Fields == 1..2
\* without loss of generality an owner has a smaller number than what it owns
Init == /\ own \in [Obj -> (0..(N - 1)) \X Fields]
        /\ own[1] = <<0, 1>>
        /\ \A o \in Obj : own[o][1] < o
        /\ \A o, p \in Obj : (o # p /\ own[o][1] # 0) => own[o] # own[p]
        /\ kind \in [Obj -> Kinds] /\ kind[1] # "owned"
        /\ ptr \in [Obj -> 0..N]               \* every object has one pointer, between its two owning fields
        /\ todo = <<<<1, 0>>>> /\ written = << >> /\ note = {} /\ aside = << >> /\ res = [o \in Obj |-> -1] /\ phase = "walk"
RECURSIVE In(_)
In(o) == o = 1 \/ (own[o][1] # 0 /\ In(own[o][1]))
Addressable(o) == In(o) /\ kind[o] \in {"owned", "marked"}
Held(o, f) == {p \in Obj : own[p] = <<o, f>>}
Seq1(s) == IF s = {} THEN << >> ELSE <<CHOOSE x \in s : TRUE>>
\* todo is a stack of <<object, 0>> (write and visit it) and <<object, 1>> (its pointer)
Visit == /\ phase = "walk" /\ todo # << >> /\ Head(todo)[2] = 0
         /\ LET o == Head(todo)[1] push(f) == [k \in 1..Len(Seq1(Held(o, f))) |-> <<Seq1(Held(o, f))[k], 0>>] IN
            /\ written' = Append(written, o)
            /\ note' = IF kind[o] \in {"owned", "marked"} THEN note \cup {o} ELSE note
            /\ todo' = push(1) \o <<<<o, 1>>>> \o push(2) \o Tail(todo)
         /\ UNCHANGED <<own, ptr, kind, aside, res, phase>>
Pointer == /\ phase = "walk" /\ todo # << >> /\ Head(todo)[2] = 1
           /\ LET o == Head(todo)[1] t == ptr[o] IN
              IF t = 0 \/ t \in note THEN res' = [res EXCEPT ![o] = t] /\ UNCHANGED aside
              ELSE res' = [res EXCEPT ![o] = 0] /\ aside' = Append(aside, o)
           /\ todo' = Tail(todo) /\ UNCHANGED <<own, ptr, kind, written, note, phase>>
After == /\ phase = "walk" /\ todo = << >> /\ phase' = "resolve" /\ UNCHANGED <<own, ptr, kind, todo, written, note, aside, res>>
Resolve == /\ phase = "resolve" /\ aside # << >> /\ aside' = Tail(aside)
           /\ res' = IF ptr[Head(aside)] \in note THEN [res EXCEPT ![Head(aside)] = ptr[Head(aside)]] ELSE res
           /\ UNCHANGED <<own, ptr, kind, todo, written, note, phase>>
End == phase = "resolve" /\ aside = << >> /\ phase' = "end" /\ UNCHANGED <<own, ptr, kind, todo, written, note, aside, res>>
Next == Visit \/ Pointer \/ After \/ Resolve \/ End
Spec == Init /\ [][Next]_vars
\* every object of the graph is written once
Once == Len(written) = Cardinality({written[k] : k \in 1..Len(written)})
Complete == phase = "end" => {written[k] : k \in 1..Len(written)} = {o \in Obj : In(o)}
Kept == phase = "end" => \A o \in Obj : In(o) => res[o] = IF ptr[o] # 0 /\ Addressable(ptr[o]) THEN ptr[o] ELSE 0
=============================================================================
