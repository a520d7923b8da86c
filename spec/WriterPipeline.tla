--------------------------- MODULE WriterPipeline ----------------------------
\* Writing the blocks of a sparse field with several threads.
\*   A thread takes the next allocated block from a shared counter, compresses it on its own, waits until the shared turn
\*   is at its block, appends it to the data set, and passes the turn on to the next allocated block.
\*   The abstract machine (the property) just appends the allocated blocks in order.
\*   Every access to a shared variable is a step; StepwiseTurn is the variant that advances the turn variable in place.
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NB, Threads, StepwiseTurn
VARIABLES alloc,    \* which blocks are allocated
          cnt,      \* next block to compress
          cl, wl,   \* owners of the two locks (0: free)
          turn,     \* next block to write
          data,     \* the data set being written
          pc, my    \* per thread: where it is, and its block
vars == <<alloc, cnt, cl, wl, turn, data, pc, my>>
Blocks == 0..(NB - 1)
FirstFrom(b) == LET s == {i \in b..(NB - 1) : alloc[i]} IN IF s = {} THEN NB ELSE CHOOSE i \in s : \A j \in s : i <= j
Init == /\ alloc \in [Blocks -> BOOLEAN] /\ cnt = FirstFrom(0) /\ turn = FirstFrom(0) /\ cl = 0 /\ wl = 0 /\ data = <<>>
        /\ pc = [t \in Threads |-> "take"] /\ my = [t \in Threads |-> NB]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
\* take the next block under the lock
Lock1(t) == pc[t] = "take" /\ cl = 0 /\ cl' = t /\ Go(t, "inc") /\ UNCHANGED <<alloc, cnt, wl, turn, data, my>>
Inc(t) == pc[t] = "inc" /\ my' = [my EXCEPT ![t] = cnt] /\ cnt' = cnt + 1 /\ Go(t, "skip") /\ UNCHANGED <<alloc, cl, wl, turn, data>>
Skip(t) == pc[t] = "skip" /\ (IF cnt < NB /\ ~alloc[cnt] THEN cnt' = cnt + 1 /\ UNCHANGED <<pc, cl>> ELSE cl' = 0 /\ Go(t, IF my[t] < NB THEN "compress" ELSE "done") /\ UNCHANGED cnt) /\ UNCHANGED <<alloc, wl, turn, data, my>>
Compress(t) == pc[t] = "compress" /\ Go(t, "wait") /\ UNCHANGED <<alloc, cnt, cl, wl, turn, data, my>>
\* look whether it is this block's turn
Look(t) == pc[t] = "wait" /\ wl = 0 /\ Go(t, IF turn = my[t] THEN "append" ELSE "wait") /\ UNCHANGED <<alloc, cnt, cl, wl, turn, data, my>>
AppendIt(t) == pc[t] = "append" /\ data' = Append(data, my[t]) /\ Go(t, IF StepwiseTurn THEN "pass1" ELSE "pass") /\ UNCHANGED <<alloc, cnt, cl, wl, turn, my>>
Pass(t) == pc[t] = "pass" /\ wl = 0 /\ turn' = FirstFrom(my[t] + 1) /\ Go(t, "take") /\ UNCHANGED <<alloc, cnt, cl, wl, data, my>>
\* the turn is incremented under the lock, then stepped over unallocated blocks without it
Pass1(t) == pc[t] = "pass1" /\ turn' = turn + 1 /\ Go(t, "pass2") /\ UNCHANGED <<alloc, cnt, cl, wl, data, my>>
Pass2(t) == pc[t] = "pass2" /\ (IF turn < NB /\ ~alloc[turn] THEN Go(t, "pass1") ELSE Go(t, "take")) /\ UNCHANGED <<alloc, cnt, cl, wl, turn, data, my>>
Step(t) == Lock1(t) \/ Inc(t) \/ Skip(t) \/ Compress(t) \/ Look(t) \/ AppendIt(t) \/ Pass(t) \/ Pass1(t) \/ Pass2(t)
Next == (\E t \in Threads : Step(t)) \/ ((\A t \in Threads : pc[t] = "done") /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
\* ---- properties --------------------------------------------------------------------------------
RECURSIVE InOrder(_)
InOrder(b) == IF b >= NB THEN <<>> ELSE IF alloc[b] THEN <<b>> \o InOrder(b + 1) ELSE InOrder(b + 1)
Finished == \A t \in Threads : pc[t] = "done"
PrefixInOrder == data = SubSeq(InOrder(0), 1, Len(data))
AllWritten == Finished => data = InOrder(0)
OneWriter == Cardinality({t \in Threads : pc[t] \in {"append", "pass"}}) <= 1
\* blocks are handed out once
Distinct == \A t, u \in Threads : t # u /\ pc[t] \in {"compress", "wait", "append", "pass"} /\ pc[u] \in {"compress", "wait", "append", "pass"} => my[t] # my[u]
Completes == <>Finished
\* ---- the reading side: a counter alone, no order --------------------------------------------------
=============================================================================
