---------------------------- MODULE FieldFileMC -----------------------------
\* every small level: reading what was written gives it back, and only the matching request is served
EXTENDS FieldFile
CONSTANTS Orders, Values
VARIABLES f
Ress == {<<1, 1, 1>>, <<2, 1, 1>>, <<3, 1, 1>>, <<1, 3, 1>>, <<2, 1, 2>>, <<1, 1, 5>>}
Mins == {<<0, 0, 0>>, <<-2, 3, 1>>}
Lev(m, r, o, a, e, v) == [min |-> m, res |-> r, order |-> o, alloc |-> a, ev |-> e, val |-> TLCEval([n \in 1..Prod(r) |-> LET b == BlockOf(n, r, o) IN IF a[b] THEN v[n] ELSE e[b]])]
Init == \/ \E s \in {"dense", "mac"}, m \in Mins : \E r \in {x \in Ress : Count(s, x) < 12} : \E v \in [1..Count(s, r) -> Values] : f = [str |-> s, prec |-> 1, comps |-> IF s = "mac" THEN 3 ELSE 1, ext |-> <<0>>, levels |-> <<[min |-> m, res |-> r, val |-> v]>>]
        \/ \E m \in Mins, r \in Ress, o \in Orders : \E a \in [1..Prod(BRes(r, o)) -> BOOLEAN], e \in [1..Prod(BRes(r, o)) -> Values], v \in [1..Prod(r) -> Values] :
              f = [str |-> "sparse", prec |-> 2, comps |-> 1, ext |-> <<0>>, levels |-> <<Lev(m, r, o, a, e, v)>>]
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
RoundTrip == Decode(Encode(f)) = f
Served == \A p \in 1..3, c \in {1, 3} : Request(Encode(f), p, c) = IF p = f.prec /\ c = f.comps THEN <<f>> ELSE <<>>
Size == LET l == f.levels[1] s == Encode(f).levels[1] IN IF f.str = "sparse" THEN Len(s.data) = Cardinality({b \in DOMAIN l.alloc : l.alloc[b]}) ELSE Len(s.data) = Count(f.str, l.res)
=============================================================================
