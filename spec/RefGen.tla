------------------------------- MODULE RefGen --------------------------------
\* programs over shared references: slots of threads, mailboxes between them, weak observers, reads through the field cache
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxTh, Len1, Len2, Read, Num
VARIABLES k, hist
vars == <<k, hist>>
R(S, d) == RandomElement(S)
Slots == 1..3
Keys == 1..12          \* file x partition x layer x type, see the driver
\* kinds: 1 copy i->j, 2 drop i, 3 post i -> box m, 4 fetch box m -> i, 5 observe object weakly, 6 cast copy i->j, 7 read key -> i, 8 cache size, 9 write file, 10 swap i, j
OpsOwn == <<1, 1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 5, 6, 10>>
OpsRead == <<1, 2, 2, 2, 7, 7, 7, 7, 3, 4, 5, 8>>
OpsSeq == <<7, 7, 7, 7, 7, 2, 2, 2, 1, 8, 9, 5>>
Op(kd, hot, d) == [op |-> kd, i |-> R(Slots, d), j |-> R(Slots, d + 1), m |-> R(1..2, d), key |-> IF R(1..3, d) > 1 THEN hot[R(DOMAIN hot, d)] ELSE R(Keys, d), x |-> R(1..6, d)]
Prog(n, ops, hot, d) == TLCEval([x \in 1..n |-> Op(ops[R(DOMAIN ops, x + d)], hot, x + d)])
Hots(d) == <<R(Keys, d), R(Keys, d + 1)>>
Th == IF MaxTh = 1 THEN {1} ELSE 2..MaxTh
Ops == IF MaxTh = 1 THEN OpsSeq ELSE IF Read THEN OpsRead ELSE OpsOwn
Scen(th, hot, n, fmt) == [th |-> th, init |-> TLCEval([t \in 1..th |-> TLCEval([s \in Slots |-> R(0..2, s + 10 * t)])]), fmt |-> fmt, prog |-> TLCEval([t \in 1..th |-> Prog(n, Ops, hot, 100 * t)]), read |-> Read]
Init == k = 0 /\ hist = <<>>
Next == k < Num /\ k' = k + 1 /\ \E th \in {R(Th, k)} : \E hot \in {TLCEval(Hots(k))} : \E s \in {Scen(th, hot, R(Len1..Len2, k), R(0..1, k))} : hist' = <<s>>
Spec == Init /\ [][Next]_vars
Emit == k = 0 \/ PrintT(<<"BEH", ToJson(hist[1])>>)
=============================================================================
