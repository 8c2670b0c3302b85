-------------------------------- MODULE Mmap --------------------------------
(* Memory mapped files: two slots (objects) and two files.  Only bytes that were
   written have a known value; growing leaves the new bytes unspecified.
   known: set of <<position, value>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Depth, Sizes
Slots == 1..2
Files == 1..2
NoFile == [size |-> -1, known |-> {}]
Closed == [open |-> FALSE, f |-> 0, prot |-> "none", used |-> 0, known |-> {}]
VARIABLES s, disk, hist, done
vars == <<s, disk, hist, done>>
Cut(k, n) == {p \in k : p[1] >= 0 /\ p[1] < n}
Pairs(k) == SetToSortSeq(k, LAMBDA a, b : a[1] < b[1])
ShowSlot(x) == IF x.open THEN <<x.f, x.used, Pairs(x.known)>> ELSE << >>
ShowDisk(d) == <<d.size, Pairs(d.known)>>
Opened(ss) == {ss[i].f : i \in {j \in Slots : ss[j].open}}
View(ss, dd) == <<[i \in Slots |-> ShowSlot(ss[i])], [f \in Files |-> IF f \in Opened(ss) THEN << >> ELSE ShowDisk(dd[f])]>>
Init == s = [i \in Slots |-> Closed] /\ disk = [f \in Files |-> NoFile] /\ hist = << >> /\ done = FALSE
Log(op, args, res) == hist' = Append(hist, <<op, args, <<res, View(s', disk')>>>>) /\ UNCHANGED done
Same == UNCHANGED <<s, disk>>
\* what closing slot i leaves in its file
Flushed(ss, dd, i) == IF ~ss[i].open \/ ss[i].prot = "read" THEN dd ELSE [dd EXCEPT ![ss[i].f] = [size |-> ss[i].used, known |-> ss[i].known]]
Open(i, f, prot) ==
  /\ f \notin Opened(s)
  /\ IF prot # "write" /\ disk[f].size < 0 THEN Same /\ Log("open", <<i, f, prot>>, "throw")
     ELSE /\ disk' = [Flushed(s, disk, i) EXCEPT ![f] = IF prot = "write" THEN [size |-> 0, known |-> {}] ELSE @]
          /\ s' = [s EXCEPT ![i] = [open |-> TRUE, f |-> f, prot |-> prot, used |-> disk'[f].size, known |-> disk'[f].known]]
          /\ Log("open", <<i, f, prot>>, 0)
Resize(i, n) == s[i].open /\ (IF s[i].prot = "read" THEN Same /\ Log("resize", <<i, n>>, "throw")
                ELSE UNCHANGED disk /\ s' = [s EXCEPT ![i].used = n, ![i].known = Cut(@, n)] /\ Log("resize", <<i, n>>, 0))
Reserve(i, n) == s[i].open /\ Same /\ Log("reserve", <<i, n>>, IF s[i].prot = "read" THEN "throw" ELSE 0)
Write(i, p, x) == /\ s[i].open /\ s[i].prot # "read" /\ p >= 0 /\ p < s[i].used /\ UNCHANGED disk
                  /\ s' = [s EXCEPT ![i].known = {q \in @ : q[1] # p} \cup {<<p, x>>}] /\ Log("write", <<i, p, x>>, 0)
Sync(i) == s[i].open /\ Same /\ Log("sync", <<i>>, 0)
Close(op, i) == disk' = Flushed(s, disk, i) /\ s' = [s EXCEPT ![i] = Closed] /\ Log(op, <<i>>, 0)
MoveConstruct(i) == Same /\ Log("move_construct", <<i>>, 0)
MoveAssign(i, j) == i # j /\ disk' = Flushed(s, disk, i) /\ s' = [s EXCEPT ![i] = s[j], ![j] = Closed] /\ Log("move_assign", <<i, j>>, 0)
Swap == UNCHANGED disk /\ s' = <<s[2], s[1]>> /\ Log("swap", << >>, 0)
Finish == /\ Len(hist) = Depth /\ ~done /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT) /\ done' = TRUE /\ UNCHANGED <<s, disk, hist>>
EnumNext == (Len(hist) < Depth /\
   IF Len(hist) = 0 THEN Open(1, 1, "write") ELSE IF Len(hist) = 1 THEN Resize(1, 5000)
   ELSE \/ Write(1, 3, 9) \/ Write(1, s[1].used - 1, 8) \/ \E n \in {0, 10, 9000} : Resize(1, n) \/ Reserve(1, 20000) \/ Close("close", 1) \/ Close("default", 1)
        \/ \E p \in {"write", "read", "modify"} : Open(1, 1, p) \/ Open(2, 1, p)
        \/ Open(1, 2, "write") \/ MoveAssign(1, 2) \/ MoveAssign(2, 1) \/ Swap) \/ Finish
EnumSpec == Init /\ [][EnumNext]_vars
Pick(S) == RandomElement(S)
SimNext ==
  IF Len(hist) >= Depth THEN Finish
  ELSE \E r \in {Pick(1..100)}, i \in {Pick(Slots)}, f \in {Pick(Files)}, n \in {Pick(Sizes)}, x \in {Pick(1..250)}, u \in {Pick(1..8)}, w \in {Pick(0..30000)} :
       LET o == s[i].open
           j == 3 - i
           used == s[i].used
           p == CASE u = 1 -> 0 [] u = 2 -> used - 1 [] u = 3 /\ used > 4096 -> 4096 [] u = 4 /\ used > 4096 -> 4095 [] OTHER -> w % (IF used = 0 THEN 1 ELSE used)
           free == f \notin Opened(s) IN
       CASE ~o /\ r <= 60 /\ free -> Open(i, f, IF u <= 3 THEN "write" ELSE IF u <= 6 THEN "modify" ELSE "read")
         [] r <= 10 /\ free -> Open(i, f, IF u <= 2 THEN "write" ELSE IF u <= 6 THEN "modify" ELSE "read")
         [] r <= 30 /\ o -> Resize(i, n)
         [] r <= 36 /\ o -> Reserve(i, n)
         [] r <= 70 /\ o /\ s[i].prot # "read" /\ used > 0 -> Write(i, p, x)
         [] r <= 74 /\ o -> Sync(i)
         [] r <= 82 -> Close(IF u = 1 THEN "default" ELSE "close", i)
         [] r <= 88 -> MoveConstruct(i)
         [] r <= 96 -> MoveAssign(i, j)
         [] OTHER -> Swap
SimSpec == Init /\ [][SimNext]_vars
InRange == (\A i \in Slots : s[i].known = Cut(s[i].known, s[i].used)) /\ (\A f \in Files : disk[f].known = Cut(disk[f].known, disk[f].size))
OneOwner == s[1].open /\ s[2].open => s[1].f # s[2].f
=============================================================================
