----------------------------- MODULE MappingGen -----------------------------
EXTENDS Mapping, Json
CONSTANTS Depth
VARIABLES hist, lens             \* lens: near, far, field of view shared by the samples of one behaviour (sometimes)
R(S) == {RandomElement(S)}
vars == <<o, hist, lens>>
Sm(n) == RandomElement(-1..1)
Affine(n) == LET s == RandomElement({1, 1, 1, -1}) IN <<<<s * RandomElement(4..7), Sm(1), Sm(2)>>, <<Sm(3), RandomElement(4..7), Sm(4)>>, <<Sm(5), Sm(6), RandomElement(4..7)>>, <<RandomElement(-9..9), RandomElement(-9..9), RandomElement(-9..9)>>>>
\* reflection is a property of the behaviour, so that blends stay invertible
Aff(n) == LET m == Affine(n) IN IF (m[1][1] < 0) = lens.refl THEN m ELSE [m EXCEPT ![1][1] = -@]
Shear(m) == [m EXCEPT ![2][1] = @ + 1]
Val(kd, n) == IF kd = "matrix" THEN Aff(n) ELSE [c |-> Aff(n), n |-> IF lens.shared THEN lens.n ELSE RandomElement(1..3), f |-> IF lens.shared THEN lens.f ELSE RandomElement(4..6), a |-> IF lens.shared THEN lens.a ELSE RandomElement(1..2), b |-> IF lens.shared THEN lens.b ELSE RandomElement(1..2)]
Ext(n) == LET mn == [i \in 1..3 |-> RandomElement(-5..5)] IN <<mn, [i \in 1..3 |-> mn[i] + RandomElement({0, 1, 2, 3, 6})]>>
Pos(n) == [i \in 1..3 |-> IF i = 3 THEN RandomElement(0..4) ELSE RandomElement(-2..6)]
Tm(n) == RandomElement(-6..10)
\* evaluations of object a: positions in quarters, times in quarters
EvalsOf(a, n) == [i \in 1..5 |-> LET q == Pos(i) t == IF i = 1 THEN 0 ELSE IF i = 2 /\ o'[a].s # <<>> THEN o'[a].s[Len(o'[a].s)].t ELSE Tm(i) IN
   IF Specified(o'[a], t) THEN [q |-> q, t |-> t, w |-> World(o'[a], q, t)] ELSE [q |-> q, t |-> t, w |-> [num |-> <<0, 0, 0>>, den |-> 0]]]
NearFar(a) == IF o'[a].kind = "frustum" /\ Known(o'[a]) THEN LET F(v) == <<v.n, v.f>> IN <<Blend(o'[a].s, 0, F)>> ELSE <<>>
Rel == TLCEval([a \in Objs |-> [b \in Objs |-> IF o'[a].ext # o'[b].ext THEN -1 ELSE IF Same(o'[a], o'[b]) THEN 1 ELSE 0]])
Rec(r, a) == \E ev \in {EvalsOf(a, Len(hist))} : hist' = Append(hist, r @@ [obj |-> a, st |-> [kind |-> o'[a].kind, z |-> o'[a].z, ext |-> o'[a].ext, s |-> o'[a].s, dflt |-> o'[a].dflt], ev |-> ev, nf |-> NearFar(a), same |-> Rel])
Kinds == <<"New", "Add", "Add", "Add", "Add", "Add", "Only", "Clear", "Z", "Ext", "Clone", "Clone", "Shear", "Trip", "Trip">>
Step == \E kd \in {Kinds[RandomElement(DOMAIN Kinds)]}, a \in R(Objs), b \in R(Objs), k \in R({"matrix", "frustum", "matrix", "frustum", "null"}), how \in R(0..3) :
  \E t \in {Tm(Len(hist))}, v \in {Val(o[a].kind, Len(hist))}, e \in {Ext(Len(hist))} :
  IF kd \in {"Add", "Only", "Shear", "Clear"} /\ o[a].kind = "null" THEN Clone(a, b) /\ Rec([n |-> "Clone", a |-> a, b |-> b], b)
  ELSE
  CASE kd = "New" -> New(a, k, e) /\ Rec([n |-> kd, how |-> how], a)
    [] kd = "Add" -> AddSample(a, t, v) /\ Rec([n |-> kd, t |-> t, v |-> v], a)
    [] kd = "Only" -> SetOnly(a, v) /\ Rec([n |-> kd, v |-> v], a)
    [] kd = "Clear" -> Clear(a) /\ Rec([n |-> kd], a)
    [] kd = "Z" -> IF o[a].kind = "frustum" THEN SetZ(a, how % 2) /\ Rec([n |-> kd, z |-> how % 2], a) ELSE New(a, k, e) /\ Rec([n |-> "New", how |-> how], a)
    [] kd = "Ext" -> SetExt(a, e) /\ Rec([n |-> kd], a)
    [] kd = "Clone" -> Clone(a, b) /\ Rec([n |-> kd, a |-> a, b |-> b], b)
    \* change one sample by a shear only: the mappings then differ
    [] kd = "Shear" -> IF o[a].kind = "matrix" /\ o[a].s # <<>> THEN LET w == Shear(o[a].s[1].v) IN AddSample(a, o[a].s[1].t, w) /\ Rec([n |-> "Add", t |-> o[a].s[1].t, v |-> w], a)
                       ELSE AddSample(a, t, v) /\ Rec([n |-> "Add", t |-> t, v |-> v], a)
    [] kd = "Trip" -> RoundTrip(a) /\ Rec([n |-> kd, fmt |-> how % 2], a)
GInit == Init /\ hist = <<>> /\ lens = <<>>
Start == \E n \in R(1..3), f \in R(4..6), a \in R(1..2), b \in R(1..2), sh \in R({TRUE, TRUE, FALSE}), rf \in R({TRUE, FALSE, FALSE}) : lens' = [n |-> n, f |-> f, a |-> a, b |-> b, shared |-> sh, refl |-> rf] /\ UNCHANGED o /\ hist' = <<[n |-> "Start"]>>
GNext == Len(hist) < Depth /\ IF hist = <<>> THEN Start ELSE Step /\ UNCHANGED lens
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) < Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
