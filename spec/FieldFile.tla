----------------------------- MODULE FieldFile ------------------------------
(* What one layer of a file holds, and the way a field becomes it and comes back: the window, the voxel data in storage
   order (for a sparse field one record per block, data for the allocated ones only, in block order), and what tells the
   readers apart: structure, precision, components. Reading is the inverse of writing, for the matching request only. *)
EXTENDS Grid
Structs == {"dense", "sparse", "mac", "mipdense", "mipsparse"}
\* number of values one level needs: the voxels, or the faces of the three directions
FaceRes(r, d) == [i \in 1..3 |-> IF i = d THEN r[i] + 1 ELSE r[i]]
Count(str, r) == IF str = "mac" THEN Prod(FaceRes(r, 1)) + Prod(FaceRes(r, 2)) + Prod(FaceRes(r, 3)) ELSE Prod(r)
Base(str) == IF str = "mipdense" THEN "dense" ELSE IF str = "mipsparse" THEN "sparse" ELSE str
\* a level: [min, res, order, val, alloc, ev]: values in scanline order; alloc and ev per block of a sparse level
\* the values of block b, in the order they are stored: the whole cube, positions beyond the window are arbitrary (0)
BlockData(l, b) == LET s == Pow2(l.order) q == Off(b, BRes(l.res, l.order)) IN
  [n \in 1..(s*s*s) |-> LET p == Add3(<<q[1]*s, q[2]*s, q[3]*s>>, Off(n, <<s, s, s>>)) IN
     IF p[1] < l.res[1] /\ p[2] < l.res[2] /\ p[3] < l.res[3] THEN l.val[Lin(p, l.res)] ELSE 0]
RECURSIVE Flatten(_, _, _)
Flatten(l, b, acc) == IF b > Prod(BRes(l.res, l.order)) THEN acc ELSE Flatten(l, b + 1, IF l.alloc[b] THEN Append(acc, BlockData(l, b)) ELSE acc)
EncLevel(str, l) == IF Base(str) = "sparse"
  THEN [min |-> l.min, res |-> l.res, order |-> l.order, alloc |-> l.alloc, ev |-> l.ev, data |-> Flatten(l, 1, <<>>)]
  ELSE [min |-> l.min, res |-> l.res, data |-> l.val]
Rank(alloc, b) == Cardinality({c \in 1..b : alloc[c]})
DecLevel(str, s) == IF Base(str) = "sparse"
  THEN [min |-> s.min, res |-> s.res, order |-> s.order, alloc |-> s.alloc, ev |-> s.ev,
        val |-> [n \in 1..Prod(s.res) |-> LET b == BlockOf(n, s.res, s.order) p == Off(n, s.res) w == Pow2(s.order)
                   IN IF s.alloc[b] THEN s.data[Rank(s.alloc, b)][Lin(<<p[1] % w, p[2] % w, p[3] % w>>, <<w, w, w>>)] ELSE s.ev[b]]]
  ELSE [min |-> s.min, res |-> s.res, val |-> s.data]
\* a field is [str, prec, comps, ext, levels]; what a format can hold
Holds(fmt, f) == ~(fmt = "ogawa" /\ f.str = "mac") /\ (f.str = "mac" => f.comps = 3)
Encode(f) == [str |-> f.str, prec |-> f.prec, comps |-> f.comps, ext |-> f.ext, levels |-> [i \in DOMAIN f.levels |-> EncLevel(f.str, f.levels[i])]]
Decode(s) == [str |-> s.str, prec |-> s.prec, comps |-> s.comps, ext |-> s.ext, levels |-> [i \in DOMAIN s.levels |-> DecLevel(s.str, s.levels[i])]]
Request(s, prec, comps) == IF s.prec = prec /\ s.comps = comps THEN <<Decode(s)>> ELSE <<>>
=============================================================================
