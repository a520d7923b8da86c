----------------------------- MODULE MIPBuildGen -----------------------------
\* bases to build multi-resolution fields from, and the levels they must give
EXTENDS MIPBuild, Json, SequencesExt, FiniteSetsExt
CONSTANTS Pyramids, Longs, Types, Sizes, Big, Offs, Neg
VARIABLES k, S, out
vars == <<k, S, out>>
R(X, d) == RandomElement(X)
Vec(X, d) == TLCEval([a \in 1..3 |-> R(X, d + a)])
\* contents: constant, hashed with both signs, scattered, zero on one side of a cut
Value(p, c, m, x) == IF p = 0 THEN m - 4 ELSE IF p = 1 THEN ((((c[1] * 31 + c[2] * 17 + c[3] * 43 + m * 7) % 97) * 29) % 61) - 25 ELSE IF p = 2 THEN (IF (c[1] * 3 + c[2] * 5 + c[3] * 7 + m) % 11 = 0 THEN m - 5 ELSE 0) ELSE IF (c[x.axis] < x.cut) = (m > 3) THEN m - 12 ELSE 0
Fill(x) == TLCEval([c \in Cells(x.res) |-> Value(x.pat, c, x.m, x)])
Dump(L) == TLCEval([i \in 1..Len(L) |-> [res |-> L[i].res, v |-> TLCEval(Flat(L[i].f, L[i].res))]])
Tgt(r, m) == TLCEval([a \in 1..3 |-> LET n == (r[a] * m) \div 4 IN IF n < 2 THEN 2 ELSE n])
Zero == <<0, 0, 0>>
Pyr(f, r, m, kind, closed, d) == LET n == TLCEval(Tgt(r, m)) IN TLCEval(Dump(Levels(Shrink(f, r, n, kind, closed, d), n, Zero, 2, kind)))
\* triangle filter, first level: weights 3 for the two voxels below, 1 for the next on each side
TW(t, r, o) == TLCEval([x \in {y \in (2 * t - (o % 2) - 1)..(2 * t - (o % 2) + 2) : y \in 0..(r - 1)} |-> IF x \in Below(t, r, o) THEN 3 ELSE 1])
Sum3(f, X, Y, Z) == LET C == TLCEval(SetToSeq({<<x, y, z>> : x \in DOMAIN X, y \in DOMAIN Y, z \in DOMAIN Z})) IN TLCEval(FoldLeft(LAMBDA a, c : LET w == X[c[1]] * Y[c[2]] * Z[c[3]] IN <<a[1] + w * f[c], a[2] + w>>, <<0, 0>>, C))
Tri(f, r, o) == LET n == TLCEval(ResV(r, o, 1)) IN TLCEval([i \in 1..(n[1] * n[2] * n[3]) |-> Sum3(f, TW((i - 1) % n[1], r[1], o[1]), TW(((i - 1) \div n[1]) % n[2], r[2], o[2]), TW((i - 1) \div (n[1] * n[2]), r[3], o[3]))])
\* filter 0 box, 1 min, 2 max, 3 triangle, 4 gauss, 5 mitchell, 6 minimum/maximum pyramid
Make(x) ==
  LET f == TLCEval(Fill(x)) IN
  IF x.filter = 6 THEN [min |-> Pyr(f, x.res, x.mult, "min", TRUE, 999), min2 |-> Pyr(f, x.res, x.mult, "min", FALSE, 999), max |-> Pyr(f, x.res, x.mult, "max", TRUE, -999), max2 |-> Pyr(f, x.res, x.mult, "max", FALSE, -999), lv |-> <<[res |-> x.res, v |-> TLCEval(Flat(f, x.res))]>>]
  ELSE IF x.filter = 3 THEN [tri |-> IF More(x.res, x.small) THEN Tri(f, x.res, x.off) ELSE <<>>, lv |-> TLCEval(Dump(Levels(f, x.res, x.off, x.small, "box")))]
  ELSE [lv |-> TLCEval(Dump(Levels(f, x.res, x.off, x.small, IF x.filter = 1 THEN "min" ELSE IF x.filter = 2 THEN "max" ELSE "box")))]
Base(d) == [res |-> Vec(Sizes, d), off |-> Vec(Offs, d), min |-> Vec({0, 0, 0, 2, 5}, d), pat |-> R({0, 1, 2, 3, 3}, d), m |-> R(0..8, d), filter |-> LET q == R(1..9, d) IN IF q > 7 /\ Pyramids THEN 6 ELSE q % 6, mult |-> R({1, 2, 3, 4, 4}, d), small |-> R({1, 2, 3, 4, 8}, d), type |-> R(Types, d), order |-> R(1..4, d), long |-> R(0..3, d), axis |-> R(1..3, d)]
Fix(b) == [b EXCEPT !.off = [a \in 1..3 |-> @[a] - Neg], !.min = [a \in 1..3 |-> IF b.m % 2 = 0 THEN 0 ELSE @[a] - 2], !.res = IF b.long < Longs THEN [@ EXCEPT ![b.axis] = R(Big, 1), ![(b.axis % 3) + 1] = IF Longs > 1 /\ b.m > 3 THEN R(Big, 2) ELSE @] ELSE @]
Cut(x) == [res |-> x.res, off |-> x.off, min |-> x.min, pat |-> x.pat, m |-> x.m, filter |-> x.filter, mult |-> x.mult, small |-> x.small, type |-> x.type, order |-> x.order, long |-> x.long, axis |-> x.axis, cut |-> LET n == x.res[x.axis] IN IF n > 25 THEN R(((n \div 2) - 4)..((n \div 2) + 3), 1) ELSE R(0..n, 1)]
Init == k = 0 /\ S = <<>> /\ out = <<>>
Start == k = 0 /\ k' = 1 /\ out' = out /\ \E d \in {R(1..1000, k)} : \E b \in {TLCEval(Base(d))} : \E y \in {TLCEval(Fix(b))} : \E x \in {TLCEval(Cut(y))} : S' = x
Go == k = 1 /\ k' = 2 /\ S' = S /\ out' = [in |-> S, out |-> Make(S)]
Next == Start \/ Go
Spec == Init /\ [][Next]_vars
Emit == k # 2 \/ PrintT(<<"BEH", ToJson(out)>>)
=============================================================================
