------------------------------ MODULE MIPBuildMC -----------------------------
\* every base of one axis (and two small others), offset and contents over a small alphabet
EXTENDS MIPBuild
CONSTANTS MaxR, Offs, MaxL, Vals, MaxFill
VARIABLES r, o, f, lv
vars == <<r, o, f, lv>>
Neg == 4
Fills(n) == IF n <= MaxFill THEN [Cells(<<n, 1, 1>>) -> Vals] ELSE {[c \in Cells(<<n, 1, 1>>) |-> (c[1] * 5) % 7], [c \in Cells(<<n, 1, 1>>) |-> 3]}
Init == /\ \E n \in 1..MaxR, d \in Offs : r = <<n, 1, 1>> /\ o = <<d - Neg, 0, 0>> /\ f \in Fills(n)
        /\ lv = <<>>
Next == /\ lv = <<>> /\ lv' = [k \in {"min", "max", "box"} |-> [l \in 1..MaxL |-> IF l = 1 THEN Up(f, r, o, k) ELSE LET g1 == Up(f, r, o, k) IN IF l = 2 THEN Up(g1, ResV(r, o, 1), OffV(o, 1), k) ELSE Up(Up(g1, ResV(r, o, 1), OffV(o, 1), k), ResV(r, o, 2), OffV(o, 2), k)]]
        /\ UNCHANGED <<r, o, f>>
Spec == Init /\ [][Next]_vars
\* every base voxel lies in the window of every level, and every voxel of a level covers one
Covers == \A l \in 0..MaxL : /\ \A x \in 0..(r[1] - 1) : Idx(x, o[1], l) \in 0..(Res(r[1], o[1], l) - 1)
                             /\ \A u \in 0..(Res(r[1], o[1], l) - 1) : \E x \in 0..(r[1] - 1) : Idx(x, o[1], l) = u
\* building level by level gives the windows of building at once
Steps == \A l \in 0..(MaxL - 1) : LET p == Res(r[1], o[1], l) IN /\ Res(p, Sh(o[1], l), 1) = Res(r[1], o[1], l + 1)
                                                              /\ Res(r[1], o[1], l + 1) = (p + (Sh(o[1], l) % 2) + 1) \div 2
\* building makes progress
Shrinks == r[1] > 2 => Res(r[1], o[1], 1) < r[1]
Const == (\A c, d \in Cells(r) : f[c] = f[d]) /\ lv # <<>> => \A l \in 1..MaxL, k \in {"min", "max"} : \A c \in DOMAIN lv[k][l] : lv[k][l][c] = f[<<0, 0, 0>>] /\ lv["box"][l][c] = f[<<0, 0, 0>>] * 8 ^ l
Bounds == lv # <<>> => \A l \in 1..MaxL, x \in 0..(r[1] - 1) : LET u == <<Idx(x, o[1], l), 0, 0>> IN lv["min"][l][u] <= f[<<x, 0, 0>>] /\ f[<<x, 0, 0>>] <= lv["max"][l][u]
Tight == lv # <<>> => \A l \in 1..MaxL : \A u \in DOMAIN lv["min"][l] : \E x \in 0..(r[1] - 1) : Idx(x, o[1], l) = u[1] /\ lv["min"][l][u] = f[<<x, 0, 0>>]
\* a resampled extremum accounts for every voxel
Sampled == \A n \in 2..(IF r[1] < 2 THEN 2 ELSE r[1]) : \A x \in 0..(r[1] - 1) : n <= r[1] => \E t \in 0..(n - 1) : On(x, r[1], t, n)
=============================================================================
