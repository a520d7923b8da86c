------------------------------- MODULE Curve --------------------------------
(* A function of time given by samples: sorted by time, one value per time, blended linearly in between. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
At(s, t) == {i \in DOMAIN s : s[i].t = t}
Insert(s, t, v) ==
  IF At(s, t) # {} THEN LET i == CHOOSE i \in At(s, t) : TRUE IN [s EXCEPT ![i] = [t |-> t, v |-> v]]
  ELSE LET k == Cardinality({i \in DOMAIN s : s[i].t < t}) IN SubSeq(s, 1, k) \o <<[t |-> t, v |-> v]>> \o SubSeq(s, k + 1, Len(s))
\* the value at t as a fraction of integer tuples F(sample): nearest sample outside, linear blend in between
Blend(s, t, F(_)) ==
  IF t <= s[1].t THEN [num |-> F(s[1].v), den |-> 1]
  ELSE IF t >= s[Len(s)].t THEN [num |-> F(s[Len(s)].v), den |-> 1]
  ELSE LET i == CHOOSE i \in 1..(Len(s)-1) : s[i].t <= t /\ t < s[i+1].t
           a == F(s[i].v) b == F(s[i+1].v) w == t - s[i].t d == s[i+1].t - s[i].t IN
       [num |-> TLCEval([k \in DOMAIN a |-> a[k] * (d - w) + b[k] * w]), den |-> d]
=============================================================================
