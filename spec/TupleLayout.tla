---------------------------- MODULE TupleLayout ----------------------------
(* Placing components of given size and alignment one after the other, each at the next multiple of its alignment. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen
VARIABLES list, off, end, done
vars == <<list, off, end, done>>
Size == <<1, 2, 3, 8>>
Align == <<1, 2, 1, 8>>
Up(x, a) == ((x + a - 1) \div a) * a
Init == list = << >> /\ off = << >> /\ end = 0 /\ done = FALSE
Add(k) == /\ Len(list) < MaxLen /\ ~done
          /\ list' = Append(list, k)
          /\ off' = Append(off, Up(end, Align[k + 1]))
          /\ end' = Up(end, Align[k + 1]) + Size[k + 1]
          /\ UNCHANGED done
Emit == /\ list # << >> /\ ~done
        /\ CSVWrite("%1$s", <<ToJson(<<<<"layout", <<list>>, "sound">>>>)>>, IOEnv.OUT)
        /\ done' = TRUE /\ UNCHANGED <<list, off, end>>
Next == Emit \/ \E k \in 0..3 : Add(k)
Spec == Init /\ [][Next]_vars
Aligned == \A i \in DOMAIN list : off[i] % Align[list[i] + 1] = 0
Disjoint == \A i, j \in DOMAIN list : i < j => off[i] + Size[list[i] + 1] <= off[j]
Inside == \A i \in DOMAIN list : off[i] + Size[list[i] + 1] <= end
=============================================================================
