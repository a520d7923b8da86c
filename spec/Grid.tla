-------------------------------- MODULE Grid --------------------------------
(* Integer boxes in scanline order (x fastest), blocks of side 2^o laid from the window minimum. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Prod(r) == r[1] * r[2] * r[3]
\* offset (0-based triple) of linear index n (1-based) in a box of resolution r
Off(n, r) == << (n-1) % r[1], ((n-1) \div r[1]) % r[2], (n-1) \div (r[1]*r[2]) >>
Lin(p, r) == p[1] + r[1] * (p[2] + r[2] * p[3]) + 1
Add3(a, b) == << a[1]+b[1], a[2]+b[2], a[3]+b[3] >>
Sub3(a, b) == << a[1]-b[1], a[2]-b[2], a[3]-b[3] >>
Pow2(o) == CASE o = 0 -> 1 [] o = 1 -> 2 [] o = 2 -> 4 [] o = 3 -> 8 [] o = 4 -> 16 [] o = 5 -> 32
CeilDiv(a, b) == (a + b - 1) \div b
BRes(r, o) == << CeilDiv(r[1], Pow2(o)), CeilDiv(r[2], Pow2(o)), CeilDiv(r[3], Pow2(o)) >>
\* block (1-based linear) holding voxel n
BlockOf(n, r, o) == LET p == Off(n, r) IN
   Lin(<< p[1] \div Pow2(o), p[2] \div Pow2(o), p[3] \div Pow2(o) >>, BRes(r, o))
\* first voxel (linear) of block b
FirstVox(b, r, o) == LET q == Off(b, BRes(r, o)) IN
   Lin(<< q[1]*Pow2(o), q[2]*Pow2(o), q[3]*Pow2(o) >>, r)
VoxOf(b, r, o) == {n \in 1..Prod(r) : BlockOf(n, r, o) = b}
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == Max2(lo, Min2(hi, x))
Triples(S) == {<<a, b, c>> : a \in S, b \in S, c \in S}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
=============================================================================
