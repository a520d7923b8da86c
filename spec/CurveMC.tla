------------------------------ MODULE CurveMC -------------------------------
EXTENDS Curve
CONSTANTS Times, Vals
VARIABLES s, ghost                \* ghost: the value last given to each time
T1(v) == <<v>>
Init == s = <<>> /\ ghost = <<>>
Next == \E t \in Times, v \in Vals : s' = Insert(s, t, v) /\ ghost' = [x \in DOMAIN ghost \cup {t} |-> IF x = t THEN v ELSE ghost[x]]
Spec == Init /\ [][Next]_<<s, ghost>>
Sorted == \A i \in 1..(Len(s)-1) : s[i].t < s[i+1].t
Latest == {<<s[i].t, s[i].v>> : i \in DOMAIN s} = {<<t, ghost[t]>> : t \in DOMAIN ghost}
Val(t) == Blend(s, t, T1)
AtSamples == \A i \in DOMAIN s : LET b == Val(s[i].t) IN b.num[1] = s[i].v * b.den
Bounded == s # <<>> => \A t \in -1..7 : LET b == Val(t) IN \A i \in 1..(Len(s)-1) : (s[i].t <= t /\ t <= s[i+1].t) =>
   LET lo == IF s[i].v < s[i+1].v THEN s[i].v ELSE s[i+1].v hi == s[i].v + s[i+1].v - lo IN lo * b.den <= b.num[1] /\ b.num[1] <= hi * b.den
Outside == s # <<>> => \A t \in -1..7 : (t < s[1].t => Val(t).num[1] = s[1].v * Val(t).den) /\ (t > s[Len(s)].t => Val(t).num[1] = s[Len(s)].v * Val(t).den)
Commute == \A t \in Times, u \in Times, v \in Vals : t # u => Insert(Insert(s, t, v), u, 0) = Insert(Insert(s, u, 0), t, v)
=============================================================================
