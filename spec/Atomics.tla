------------------------------ MODULE Atomics ------------------------------
(* Concurrent atomic operations.  A program gives every thread a sequence of
   operations; the permitted results are those of some sequential order of the
   operations (Outcomes).  The algorithms are specified at the level of single
   memory accesses (load / compare-and-swap that may fail spuriously / one
   read-modify-write) and TLC checks that every interleaving ends in a permitted
   result.  The same Outcomes are emitted for every program and compared with
   the results of the real code under all interleavings of its memory accesses.

   Mode "cell":  a number;          <<"min",v>>  <<"max",v>>   return the replaced value
   Mode "word":  a set of bits;     <<"or",B>>   <<"and",B>>   return the replaced value
   Mode "bits":  a set of bits;     <<"set",i>>  <<"clr",i>>  <<"get",i>>
   Mode "claim": a fixed set, a position; <<"next",0>> returns the next set bit or -1 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, IOUtils
CONSTANTS Mode, NT, MaxOps, MaxTotal, Vals, Sample
VARIABLES init, prog, mem, pc, loc, at, rets, done
vars == <<init, prog, mem, pc, loc, at, rets, done>>

Threads == 1..NT
OpSet == CASE Mode = "cell" -> {"min", "max"} \X Vals
           [] Mode = "word" -> {"or", "and"} \X {{}, {0}, {1, 63}, {0, 63}}
           [] Mode = "bits" -> {"set", "clr", "get"} \X Vals
           [] OTHER -> {<<"next", 0>>}
Inits == CASE Mode = "cell" -> Vals
           [] Mode = "word" -> {{}, {0, 1}, {63}, {0, 1, 63}}
           [] Mode = "bits" -> SUBSET Vals
           [] OTHER -> {[set |-> s, pos |-> p] : s \in SUBSET Vals, p \in {0, 1, 64, 66}}
Lower(a, b) == IF a < b THEN a ELSE b
Higher(a, b) == IF a > b THEN a ELSE b
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Ahead(m) == {i \in m.set : i >= m.pos}

(* one operation at once: <<result, memory>> *)
Apply(o, m) == CASE o[1] = "min" -> <<m, Lower(m, o[2])>>
                 [] o[1] = "max" -> <<m, Higher(m, o[2])>>
                 [] o[1] = "or" -> <<m, m \cup o[2]>>
                 [] o[1] = "and" -> <<m, m \cap o[2]>>
                 [] o[1] = "set" -> <<0, m \cup {o[2]}>>
                 [] o[1] = "clr" -> <<0, m \ {o[2]}>>
                 [] o[1] = "get" -> <<IF o[2] \in m THEN 1 ELSE 0, m>>
                 [] OTHER -> IF Ahead(m) = {} THEN <<-1, m>> ELSE <<First(Ahead(m)), [m EXCEPT !.pos = First(Ahead(m)) + 1]>>
RECURSIVE Run(_, _, _)
Run(m, k, r) == LET live == {t \in Threads : k[t] < Len(prog[t])} IN
    IF live = {} THEN {<<r, m>>}
    ELSE UNION {LET x == Apply(prog[t][k[t] + 1], m) IN Run(x[2], [k EXCEPT ![t] = @ + 1], [r EXCEPT ![t] = Append(@, x[1])]) : t \in live}
Outcomes == Run(init, [t \in Threads |-> 0], [t \in Threads |-> <<>>])

RECURSIVE Total(_, _)
Total(p, t) == IF t = 0 THEN 0 ELSE Len(p[t]) + Total(p, t - 1)
RandOps(n) == [i \in 1..n |-> RandomElement(OpSet)]
Init == /\ init \in Inits
        /\ IF Sample = 0 THEN /\ prog \in [Threads -> UNION {[1..n -> OpSet] : n \in 1..MaxOps}]
                              /\ Total(prog, NT) <= MaxTotal
           ELSE \E s \in 1..Sample : prog = [t \in Threads |-> RandOps(RandomElement(1..MaxOps))]
        /\ Total(prog, NT) <= MaxTotal
        /\ mem = init /\ pc = [t \in Threads |-> "start"] /\ loc = [t \in Threads |-> init] /\ at = [t \in Threads |-> 1]
        /\ rets = [t \in Threads |-> <<>>] /\ done = FALSE

Op(t) == prog[t][at[t]]
Ret(t, v) == rets' = [rets EXCEPT ![t] = Append(@, v)] /\ at' = [at EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "start"]
Busy(t) == at[t] <= Len(prog[t])
(* min / max: a load, then compare-and-swap until it succeeds; nothing is written if the value already is small / large enough *)
Enough(o, x) == IF o[1] = "min" THEN x <= o[2] ELSE x >= o[2]
CellLoad(t) == /\ Mode = "cell" /\ pc[t] = "start" /\ loc' = [loc EXCEPT ![t] = mem]
               /\ IF Enough(Op(t), mem) THEN Ret(t, mem) ELSE pc' = [pc EXCEPT ![t] = "cas"] /\ UNCHANGED <<rets, at>>
               /\ UNCHANGED mem
CellCas(t) == /\ Mode = "cell" /\ pc[t] = "cas"
              /\ IF mem = loc[t] THEN mem' = Apply(Op(t), mem)[2] /\ Ret(t, loc[t]) /\ UNCHANGED loc
                 ELSE loc' = [loc EXCEPT ![t] = mem] /\ UNCHANGED <<mem, rets, at, pc>>
Word(t) == /\ Mode \in {"word", "bits"} /\ pc[t] = "start"
           /\ LET x == Apply(Op(t), mem) IN mem' = x[2] /\ Ret(t, x[1]) /\ UNCHANGED loc
NextLoad(t) == /\ Mode = "claim" /\ pc[t] = "start" /\ loc' = [loc EXCEPT ![t] = mem]
               /\ IF Ahead(mem) = {} THEN Ret(t, -1) ELSE pc' = [pc EXCEPT ![t] = "cas"] /\ UNCHANGED <<rets, at>>
               /\ UNCHANGED mem
NextCas(t) == /\ Mode = "claim" /\ pc[t] = "cas"
              /\ IF mem.pos = loc[t].pos THEN /\ mem' = [mem EXCEPT !.pos = First(Ahead(loc[t])) + 1]
                                              /\ Ret(t, First(Ahead(loc[t]))) /\ UNCHANGED loc
                 ELSE pc' = [pc EXCEPT ![t] = "start"] /\ UNCHANGED <<mem, rets, at, loc>>
Spurious(t) == Mode = "claim" /\ pc[t] = "cas" /\ pc' = [pc EXCEPT ![t] = "start"] /\ UNCHANGED <<mem, rets, at, loc>>
Step(t) == ~done /\ Busy(t) /\ (CellLoad(t) \/ CellCas(t) \/ Word(t) \/ NextLoad(t) \/ NextCas(t) \/ Spurious(t)) /\ UNCHANGED <<init, prog, done>>
Spec == Init /\ [][\E t \in Threads : Step(t)]_vars

Finished == \A t \in Threads : ~Busy(t)
Permitted == Finished => <<rets, mem>> \in Outcomes
(* claims are unique and in every finished state exactly the first ones are gone *)
Claimed == {<<t, i>> \in Threads \X (1..MaxOps) : i <= Len(rets[t]) /\ rets[t][i] # -1}
Unique == Mode = "claim" => \A x, y \in Claimed : x # y => rets[x[1]][x[2]] # rets[y[1]][y[2]]
(* with lowering operations only, the smallest value remains *)
All == {Op0 \in OpSet : \E t \in Threads : \E i \in DOMAIN prog[t] : prog[t][i] = Op0}
Smallest == (Mode = "cell" /\ Finished /\ \A o \in All : o[1] = "min") => mem = First({o[2] : o \in All} \cup {init})
Largest == (Mode = "cell" /\ Finished /\ \A o \in All : o[1] = "max") => \A v \in {o[2] : o \in All} \cup {init} : v <= mem

(* emission: one line per program with everything that may come out *)
Seqs(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
MemJ(m) == CASE Mode = "cell" -> m [] Mode = "claim" -> <<Seqs(m.set), m.pos>> [] OTHER -> Seqs(m)
ValJ(v) == IF Mode = "word" THEN Seqs(v) ELSE v
RetJ(r) == [t \in Threads |-> [i \in DOMAIN r[t] |-> ValJ(r[t][i])]]
ProgJ == [t \in Threads |-> [i \in DOMAIN prog[t] |-> <<prog[t][i][1], ValJ(prog[t][i][2])>>]]
OutJ == SetToSeq({<<RetJ(x[1]), MemJ(x[2])>> : x \in Outcomes})
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED <<init, prog, mem, pc, loc, at, rets>>
        /\ CSVWrite("%1$s", <<ToJson(<<<<Mode, <<MemJ(init), ProgJ>>, OutJ>>>>)>>, IOEnv.OUT)
EmitSpec == Init /\ [][Emit]_vars
=============================================================================
