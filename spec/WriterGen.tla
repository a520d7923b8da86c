----------------------------- MODULE WriterGen -------------------------------
\* fields to write with several threads: block grids, allocation patterns, thread counts, in-memory or demand-loaded sources
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Num
VARIABLES k, hist
vars == <<k, hist>>
Prod(r) == r[1] * r[2] * r[3]
Grids == <<<<1, 1, 1>>, <<2, 1, 1>>, <<3, 1, 1>>, <<5, 1, 1>>, <<2, 2, 1>>, <<2, 2, 2>>, <<3, 2, 1>>, <<4, 2, 1>>, <<7, 1, 1>>, <<3, 3, 1>>>>
\* allocation: none, all, dense, thin, alternating, one block, runs with gaps
Pattern(n, kind) == CASE kind = 1 -> [i \in 1..n |-> FALSE] [] kind = 2 -> [i \in 1..n |-> TRUE] [] kind = 3 -> [i \in 1..n |-> RandomElement(1..3) > 1] [] kind = 4 -> [i \in 1..n |-> RandomElement(1..3) = 1]
  [] kind = 5 -> [i \in 1..n |-> i % 2 = 0] [] kind = 6 -> LET j == RandomElement(1..n) IN [i \in 1..n |-> i = j] [] OTHER -> [i \in 1..n |-> (i - 1) % 3 # 2]
\* the file holds the allocated blocks in block order, each with its own data; written with any number of threads this is what has to come back
Data(a) == SelectSeq([i \in 1..Len(a) |-> i], LAMBDA i : a[i])
Mk(g, kind, th, prec, vec, order, managed, pol) == LET a == TLCEval(Pattern(Prod(g), kind)) IN [grid |-> g, alloc |-> a, data |-> Data(a), th |-> th, prec |-> prec, vec |-> vec, order |-> order, managed |-> managed, budget |-> pol]
Init == k = 0 /\ hist = <<>>
Next == k < Num /\ k' = k + 1 /\ \E g \in {Grids[RandomElement(DOMAIN Grids)]} : \E s \in {Mk(g, RandomElement({1, 2, 3, 3, 4, 5, 6, 7, 7}), RandomElement({2, 2, 3, 3, 4, 6}), RandomElement(1..3), RandomElement(1..4) = 1, RandomElement(0..2), RandomElement(1..3) = 1, RandomElement(0..2))} : hist' = <<s>>
Spec == Init /\ [][Next]_vars
Emit == k = 0 \/ PrintT(<<"BEH", ToJson(hist[1])>>)
=============================================================================
