------------------------------- MODULE Interp -------------------------------
(* Linear interpolation on a grid of voxel centres (at .5) and on the three face grids of a staggered field.
   Positions are in quarter voxels, blends in units of 1/64, so that everything is an integer. *)
EXTENDS Grid
CONSTANTS Vals, MaxStep
VARIABLES min, res,          \* data window
          val,               \* cell values, or <<u, v, w>> face values for a staggered field
          mac                \* staggered?
FaceRes(r, c) == IF c = 0 THEN r ELSE [i \in 1..3 |-> IF i = c THEN r[i] + 1 ELSE r[i]]
\* grid g: 0 = cells, 1..3 = faces. q: position in quarters. Lower corner and upper weight per axis.
Rel(q, g) == [i \in 1..3 |-> IF i = g THEN q[i] ELSE q[i] - 2]
Low(q, g) == LET p == Rel(q, g) IN [i \in 1..3 |-> p[i] \div 4]
W2(q, g) == LET p == Rel(q, g) IN [i \in 1..3 |-> p[i] % 4]
Clamped(p, r) == [i \in 1..3 |-> Clamp(p[i], min[i], min[i] + r[i] - 1)]
At(v, p, r) == v[Lin(Sub3(Clamped(p, r), min), r)]
Corners == {<<a, b, c>> : a \in 0..1, b \in 0..1, c \in 0..1}
CornerSeq == << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<1,1,0>>, <<0,0,1>>, <<1,0,1>>, <<0,1,1>>, <<1,1,1>> >>
Weight(c, w) == (IF c[1] = 1 THEN w[1] ELSE 4 - w[1]) * (IF c[2] = 1 THEN w[2] ELSE 4 - w[2]) * (IF c[3] = 1 THEN w[3] ELSE 4 - w[3])
Blend(v, q, g) == LET r == FaceRes(res, g) lo == Low(q, g) w == W2(q, g) IN
   LET T(k) == Weight(CornerSeq[k], w) * At(v, Add3(lo, CornerSeq[k]), r) IN T(1) + T(2) + T(3) + T(4) + T(5) + T(6) + T(7) + T(8)
\* twice the cell-centred value of a staggered field, per component
Cell2(c, n) == LET p == Off(n, res) r == FaceRes(res, c) IN val[c][Lin(p, r)] + val[c][Lin([p EXCEPT ![c] = @ + 1], r)]
CellGrid(c) == TLCEval([n \in 1..Prod(res) |-> Cell2(c, n)])
\* ---- operations
Write(n, v) == ~mac /\ n \in DOMAIN val /\ val' = [val EXCEPT ![n] = v] /\ UNCHANGED <<min, res, mac>>
WriteFace(c, n, v) == mac /\ n \in DOMAIN val[c] /\ val' = [val EXCEPT ![c][n] = v] /\ UNCHANGED <<min, res, mac>>
---------------------------------------------------------------------------
\* properties of the blend, for every position up to two voxels outside the window
AxisPos(i) == IF res[i] = 1 THEN {4*min[i] - 3, 4*min[i] + 2, 4*min[i] + 5} ELSE (4*min[i]-MaxStep)..(4*(min[i]+res[i])+MaxStep)
Positions == {<<x, y, z>> : x \in AxisPos(1), y \in AxisPos(2), z \in AxisPos(3)}
Grids == IF mac THEN {1, 2, 3} ELSE {0}
Data(g) == IF g = 0 THEN val ELSE val[g]
Centre(n, g) == LET p == Add3(min, Off(n, FaceRes(res, g))) IN [i \in 1..3 |-> IF i = g THEN 4*p[i] ELSE 4*p[i] + 2]
ExactAtCentres == \A g \in Grids : \A n \in DOMAIN Data(g) : Blend(Data(g), Centre(n, g), g) = 64 * Data(g)[n]
Near(q, g) == {Lin(Sub3(Clamped(Add3(Low(q, g), c), FaceRes(res, g)), min), FaceRes(res, g)) : c \in Corners}
Bounded == \A g \in Grids : \A q \in Positions : LET b == Blend(Data(g), q, g) V == {Data(g)[n] : n \in Near(q, g)} IN
   (\E v \in V : 64 * v <= b) /\ (\E v \in V : b <= 64 * v)
\* only the surrounding voxels matter
Local == \A g \in Grids : \A q \in Positions : \A n \in DOMAIN Data(g) \ Near(q, g) : Blend([Data(g) EXCEPT ![n] = 1000], q, g) = Blend(Data(g), q, g)
\* outside positions give the value at the nearest inside position
Inside(q, g) == [i \in 1..3 |-> LET r == FaceRes(res, g) lo == IF i = g THEN 4*min[i] ELSE 4*min[i]+2 hi == IF i = g THEN 4*(min[i]+r[i]-1) ELSE 4*(min[i]+r[i]-1)+2 IN Clamp(q[i], lo, hi)]
ClampOutside == \A g \in Grids : \A q \in Positions : Blend(Data(g), q, g) = Blend(Data(g), Inside(q, g), g)
=============================================================================
