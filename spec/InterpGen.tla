------------------------------ MODULE InterpGen ------------------------------
EXTENDS Interp, Json
CONSTANTS Depth, NSamples
VARIABLES hist
R(S) == {RandomElement(S)}
GRess == {r \in Triples(1..6) : Prod(r) <= 60}
GMins == Triples(-5..5)
vars == <<min, res, val, mac, hist>>
Rec(r) == hist' = Append(hist, r)
Scenario ==
  \E m \in R(GMins), r \in R(GRess), o \in R(0..3), k \in R({FALSE, FALSE, TRUE}), st \in R({TRUE, FALSE}), mp \in R(0..2) :
  \E al \in R([1..Prod(BRes(r, o)) -> {TRUE, TRUE, FALSE}]), seed \in R(0..1000), lin \in R({TRUE, FALSE, FALSE}) :
  LET v == IF k THEN TLCEval([c \in 1..3 |-> [n \in 1..Prod(FaceRes(r, c)) |-> ((n * 7 + seed * c) % 30) - 5]])
           ELSE TLCEval([n \in 1..Prod(r) |-> IF ~al[BlockOf(n, r, o)] THEN (BlockOf(n, r, o) + seed) % 5
                             ELSE IF lin THEN LET p == Off(n, r) IN p[1] + 2*p[2] - p[3] ELSE ((n * 11 + seed) % 31) - 6]) IN
  /\ min' = m /\ res' = r /\ mac' = k /\ val' = v
  /\ Rec([n |-> "Scenario", min |-> m, res |-> r, order |-> o, mac |-> k, static |-> st, map |-> mp, al |-> al, val |-> v,
          ev |-> TLCEval([b \in 1..Prod(BRes(r, o)) |-> (b + seed) % 5])])
GInit == min = <<0,0,0>> /\ res = <<1,1,1>> /\ val = <<0>> /\ mac = FALSE /\ hist = <<>>
\* a sample position: anywhere from two voxels below to two voxels above, sometimes far away, sometimes a centre
Axis(i) == LET hi == 4*(min[i] + res[i]) lo == 4*min[i] kd == RandomElement(1..8) IN
   CASE kd <= 4 -> RandomElement(lo..hi) [] kd = 5 -> RandomElement((lo-9)..(lo+2)) [] kd = 6 -> RandomElement((hi-2)..(hi+9))
     [] kd = 7 -> RandomElement({lo - 400, hi + 400}) [] kd = 8 -> 4 * RandomElement(min[i]..(min[i]+res[i]-1)) + 2
Sample == \E qs \in {[k \in 1..NSamples |-> <<Axis(1), Axis(2), Axis(3)>>]} :
  /\ UNCHANGED <<min, res, val, mac>>
  /\ Rec([n |-> "Sample", q |-> qs,
          exp |-> IF mac THEN TLCEval([k \in 1..NSamples |-> <<Blend(val[1], qs[k], 1), Blend(val[2], qs[k], 2), Blend(val[3], qs[k], 3)>>])
                  ELSE TLCEval([k \in 1..NSamples |-> Blend(val, qs[k], 0)]),
          cell |-> IF mac THEN LET g1 == CellGrid(1) g2 == CellGrid(2) g3 == CellGrid(3) IN TLCEval([k \in 1..NSamples |-> <<Blend(g1, qs[k], 0), Blend(g2, qs[k], 0), Blend(g3, qs[k], 0)>>]) ELSE <<>>])
GWrite == IF mac THEN \E c \in R(1..3), v \in R(Vals) : \E n \in R(DOMAIN val[c]) : WriteFace(c, n, v) /\ Rec([n |-> "Write", c |-> c, p |-> Add3(min, Off(n, FaceRes(res, c))), v |-> v])
          ELSE \E n \in R(DOMAIN val), v \in R(Vals) : Write(n, v) /\ Rec([n |-> "Write", c |-> 0, p |-> Add3(min, Off(n, res)), v |-> v])
GNext == /\ Len(hist) < Depth
         /\ IF Len(hist) = 0 THEN Scenario
            ELSE IF hist[1].static THEN Sample ELSE IF Len(hist) % 3 = 1 THEN Sample ELSE GWrite
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) < Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
