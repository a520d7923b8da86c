------------------------------- MODULE MIPBuild ------------------------------
(* The levels that building a multi-resolution field gives. Along an axis, voxel x of a base of r voxels has the true
   coordinate x + off; voxel u of level l has the true coordinate u + (off >> l) and covers the base voxels whose true
   coordinate shifted by l is that. Volumes are functions <<x, y, z>> -> integer over a 0-based window of size r. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pow(l) == 2 ^ l
Sh(o, l) == o \div Pow(l)
Res(r, o, l) == Sh(o + r - 1, l) - Sh(o, l) + 1
Idx(x, o, l) == Sh(x + o, l) - Sh(o, l)
ResV(r, o, l) == [a \in 1..3 |-> Res(r[a], o[a], l)]
OffV(o, l) == [a \in 1..3 |-> Sh(o[a], l)]
Cells(r) == {<<x, y, z>> : x \in 0..(r[1] - 1), y \in 0..(r[2] - 1), z \in 0..(r[3] - 1)}
\* the one or two voxels below voxel u along an axis of r voxels at offset o
Below(u, r, o) == {x \in {2 * u - (o % 2), 2 * u - (o % 2) + 1} : x \in 0..(r - 1)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
W(S) == IF Cardinality(S) = 1 THEN 2 ELSE 1
Lo(S) == MinOf(S)
Hi(S) == MaxOf(S)
\* one level up; kind "box" gives eight times the mean
At8(f, X, Y, Z) == f[<<Lo(X), Lo(Y), Lo(Z)>>] + f[<<Hi(X), Lo(Y), Lo(Z)>>] + f[<<Lo(X), Hi(Y), Lo(Z)>>] + f[<<Hi(X), Hi(Y), Lo(Z)>>]
               + f[<<Lo(X), Lo(Y), Hi(Z)>>] + f[<<Hi(X), Lo(Y), Hi(Z)>>] + f[<<Lo(X), Hi(Y), Hi(Z)>>] + f[<<Hi(X), Hi(Y), Hi(Z)>>]
Up(f, r, o, kind) ==
  LET n == TLCEval(ResV(r, o, 1)) IN
  TLCEval([c \in Cells(n) |-> LET X == Below(c[1], r[1], o[1]) Y == Below(c[2], r[2], o[2]) Z == Below(c[3], r[3], o[3]) IN
    IF kind = "box" THEN At8(f, X, Y, Z) ELSE LET S == {f[<<x, y, z>>] : x \in X, y \in Y, z \in Z} IN IF kind = "min" THEN MinOf(S) ELSE MaxOf(S)])
More(r, m) == (\E a \in 1..3 : r[a] > m) /\ \A a \in 1..3 : r[a] > 2
\* all levels: <<[res, f], ...>>
RECURSIVE Rest(_, _, _, _, _)
Rest(f, r, o, m, kind) == IF ~More(r, m) THEN <<>> ELSE LET g == Up(f, r, o, kind) n == TLCEval(ResV(r, o, 1)) IN <<[res |-> n, f |-> g]>> \o Rest(g, n, TLCEval(OffV(o, 1)), m, kind)
Levels(f, r, o, m, kind) == <<[res |-> r, f |-> f]>> \o Rest(f, r, o, m, kind)
\* ---- resampling to n voxels (first step of the minimum and maximum pyramids): voxel s of r belongs to voxel t of n where its centre is; a centre on the border may count for both
In(s, r, t, n) == IF n > r THEN 2 * n * s < r * (2 * t + 1) /\ r * (2 * t + 1) < 2 * n * (s + 1) ELSE 2 * r * t < n * (2 * s + 1) /\ n * (2 * s + 1) < 2 * r * (t + 1)
On(s, r, t, n) == IF n > r THEN 2 * n * s <= r * (2 * t + 1) /\ r * (2 * t + 1) <= 2 * n * (s + 1) ELSE 2 * r * t <= n * (2 * s + 1) /\ n * (2 * s + 1) <= 2 * r * (t + 1)
Samp(r, n, closed) == TLCEval([t \in 0..(n - 1) |-> {s \in 0..(r - 1) : IF closed THEN On(s, r, t, n) ELSE In(s, r, t, n)}])
\* -> [f, any]: extremum over the voxels that count, none -> dflt
Shrink(f, r, n, kind, closed, dflt) ==
  LET X == Samp(r[1], n[1], closed) Y == Samp(r[2], n[2], closed) Z == Samp(r[3], n[3], closed) IN
  TLCEval([c \in Cells(n) |-> LET S == {f[<<x, y, z>>] : x \in X[c[1]], y \in Y[c[2]], z \in Z[c[3]]} IN IF S = {} THEN dflt ELSE IF kind = "min" THEN MinOf(S) ELSE MaxOf(S)])
Flat(f, r) == [i \in 1..(r[1] * r[2] * r[3]) |-> f[<<(i - 1) % r[1], ((i - 1) \div r[1]) % r[2], (i - 1) \div (r[1] * r[2])>>]]
=============================================================================
