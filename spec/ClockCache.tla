----------------------------- MODULE ClockCache -----------------------------
(* The implementation's protocol: reader threads pin a block, look at the loaded flag without a lock, sweep the
   clock hand under the manager's mutex (taking each victim's block mutex), then take both mutexes, look again,
   load, set the used bit, read, unpin. Checked against BlockCache: no pinned block is released, memory is exact
   and bounded, every reader finishes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Blks, BSize, Budget, Reads   \* each thread performs Reads reads of arbitrary blocks
VARIABLES pc, cur, left, loaded, cnt, used, list, hand, mem, mgr, bm, inuse, room
vars == <<pc, cur, left, loaded, cnt, used, list, hand, mem, mgr, bm, inuse, room>>
None == 0
Init == /\ pc = [t \in Threads |-> "idle"] /\ cur = [t \in Threads |-> CHOOSE b \in Blks : TRUE]
        /\ left = [t \in Threads |-> Reads] /\ loaded = {} /\ cnt = [b \in Blks |-> 0] /\ used = {}
        /\ list = <<>> /\ hand = 1 /\ mem = 0 /\ mgr = None /\ bm = [b \in Blks |-> None]
        /\ inuse = [t \in Threads |-> 0] /\ room = [t \in Threads |-> FALSE]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Begin(t) == \E b \in Blks : /\ pc[t] = "idle" /\ left[t] > 0 /\ cur' = [cur EXCEPT ![t] = b] /\ Go(t, "inc")
                            /\ UNCHANGED <<left, loaded, cnt, used, list, hand, mem, mgr, bm, inuse, room>>
Inc(t) == LET b == cur[t] IN /\ pc[t] = "inc" /\ bm[b] = None
   /\ cnt' = [cnt EXCEPT ![b] = @ + 1] /\ Go(t, "peek") /\ room' = [room EXCEPT ![t] = FALSE]
   /\ UNCHANGED <<cur, left, loaded, used, list, hand, mem, mgr, bm, inuse>>
Peek(t) == /\ pc[t] = "peek" /\ Go(t, IF cur[t] \in loaded THEN "mark" ELSE "lockA")
           /\ UNCHANGED <<cur, left, loaded, cnt, used, list, hand, mem, mgr, bm, inuse, room>>
LockA(t) == /\ pc[t] = "lockA" /\ mgr = None /\ mgr' = t /\ Go(t, "sweep") /\ inuse' = [inuse EXCEPT ![t] = 0]
            /\ UNCHANGED <<cur, left, loaded, cnt, used, list, hand, mem, bm, room>>
Done(t) == list = <<>> \/ Budget - mem >= BSize \/ inuse[t] >= Len(list)
SweepEnd(t) == /\ pc[t] = "sweep" /\ Done(t) /\ mgr' = None /\ Go(t, "lock") /\ room' = [room EXCEPT ![t] = TRUE]
               /\ UNCHANGED <<cur, left, loaded, cnt, used, list, hand, mem, bm, inuse>>
H == IF hand > Len(list) THEN 1 ELSE hand
SweepLock(t) == /\ pc[t] = "sweep" /\ ~Done(t) /\ bm[list[H]] = None /\ bm' = [bm EXCEPT ![list[H]] = t]
                /\ hand' = H /\ Go(t, "victim")
                /\ UNCHANGED <<cur, left, loaded, cnt, used, list, mem, mgr, inuse, room>>
Victim(t) == LET v == list[hand] IN
   /\ pc[t] = "victim" /\ Go(t, "sweep") /\ bm' = [bm EXCEPT ![v] = None]
   /\ IF cnt[v] > 0 THEN /\ hand' = hand + 1 /\ inuse' = [inuse EXCEPT ![t] = @ + 1] /\ UNCHANGED <<used, loaded, mem, list>>
      ELSE IF v \in used THEN /\ used' = used \ {v} /\ hand' = hand + 1 /\ inuse' = [inuse EXCEPT ![t] = 0] /\ UNCHANGED <<loaded, mem, list>>
      ELSE /\ loaded' = loaded \ {v} /\ mem' = mem - BSize /\ inuse' = [inuse EXCEPT ![t] = 0]
           /\ list' = SubSeq(list, 1, hand - 1) \o SubSeq(list, hand + 1, Len(list)) /\ UNCHANGED <<used, hand>>
   /\ UNCHANGED <<cur, left, cnt, mgr, room>>
Lock(t) == LET b == cur[t] IN /\ pc[t] = "lock" /\ mgr = None /\ mgr' = t /\ Go(t, "lockB")
   /\ UNCHANGED <<cur, left, loaded, cnt, used, list, hand, mem, bm, inuse, room>>
LockB(t) == LET b == cur[t] IN /\ pc[t] = "lockB" /\ bm[b] = None /\ bm' = [bm EXCEPT ![b] = t] /\ Go(t, "load")
   /\ UNCHANGED <<cur, left, loaded, cnt, used, list, hand, mem, mgr, inuse, room>>
Load(t) == LET b == cur[t] IN
   /\ pc[t] = "load" /\ Go(t, "mark") /\ mgr' = None /\ bm' = [bm EXCEPT ![b] = None]
   /\ IF b \in loaded THEN UNCHANGED <<loaded, list, hand, mem>>
      ELSE /\ loaded' = loaded \cup {b} /\ mem' = mem + BSize
           /\ IF hand > Len(list) THEN list' = Append(list, b) /\ hand' = Len(list) + 2
              ELSE list' = SubSeq(list, 1, hand - 1) \o <<b>> \o SubSeq(list, hand, Len(list)) /\ hand' = hand + 1
   /\ UNCHANGED <<cur, left, cnt, used, inuse, room>>
Mark(t) == /\ pc[t] = "mark" /\ used' = used \cup {cur[t]} /\ Go(t, "read")
           /\ UNCHANGED <<cur, left, loaded, cnt, list, hand, mem, mgr, bm, inuse, room>>
Read(t) == /\ pc[t] = "read" /\ Go(t, "dec")
           /\ UNCHANGED <<cur, left, loaded, cnt, used, list, hand, mem, mgr, bm, inuse, room>>
Dec(t) == LET b == cur[t] IN /\ pc[t] = "dec" /\ bm[b] = None /\ cnt' = [cnt EXCEPT ![b] = @ - 1] /\ Go(t, "idle")
          /\ left' = [left EXCEPT ![t] = @ - 1]
          /\ UNCHANGED <<cur, loaded, used, list, hand, mem, mgr, bm, inuse, room>>
Step(t) == Begin(t) \/ Inc(t) \/ Peek(t) \/ LockA(t) \/ SweepEnd(t) \/ SweepLock(t) \/ Victim(t) \/ Lock(t) \/ LockB(t)
           \/ Load(t) \/ Mark(t) \/ Read(t) \/ Dec(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))
\* ---- refinement of the policy-free specification
\* the refinement mapping: list = resident blocks; cnt, mem as they are
AbsRef == << [live |-> TRUE, bsize |-> BSize, nb |-> Cardinality(Blks), loaded |-> {b - 1 : b \in loaded},
              cnt |-> [b \in 0..(Cardinality(Blks)-1) |-> cnt[b + 1]]] >>
BC == INSTANCE BlockCache WITH ref <- AbsRef, mem <- mem, budget <- Budget
AbsStep == \/ \E b \in Blks : BC!Inc(1, b-1) \/ BC!Dec(1, b-1) \/ BC!Load(1, b-1) \/ BC!Evict(1, b-1)
Refines == [][AbsStep]_<<loaded, cnt, mem>>
\* ---- properties
ReadIsResident == \A t \in Threads : pc[t] \in {"read", "mark"} => cur[t] \in loaded
Exact == mem = BSize * Cardinality(loaded) /\ {list[i] : i \in DOMAIN list} = loaded /\ Len(list) = Cardinality(loaded)
PinnedBytes == BSize * Cardinality({b \in loaded : cnt[b] > 0})
Bound == mem <= (IF Budget > 0 THEN Budget ELSE 0) + Cardinality(Threads) * BSize
Balanced == (\A t \in Threads : pc[t] = "idle") => \A b \in Blks : cnt[b] = 0
Finishes == <>(\A t \in Threads : left[t] = 0)
=============================================================================
