----------------------------- MODULE ArrayFields -----------------------------
(* Dense fields as arrays of triples over their data window, staggered (MAC) fields as three arrays of face values.
   Scalar dense fields are the first component. Every field has extents, a data window and a mapping (an opaque tag:
   which mapping was last given to it), all of which copies must not share. Operation names follow the public API. *)
EXTENDS Grid
CONSTANTS Dense, Mac,       \* identities of the dense and of the staggered fields
          Vals,             \* values written (scalars)
          Mins, Ress, Pads
VARIABLE fld
Fields == Dense \cup Mac
FaceRes(r, c) == [i \in 1..3 |-> IF i = c THEN r[i] + 1 ELSE r[i]]
Const(n, v) == TLCEval([i \in 1..n |-> v])
UND == 99999                          \* a value nobody has given yet (a resized field's contents are unspecified)
Und3 == <<UND, UND, UND>>
V3(v) == <<v, 2 * v, 0 - v>>          \* the triple written for scalar v
FreshD(min, res, pad, map, v) == [kind |-> "dense", min |-> min, res |-> res, pad |-> pad, map |-> map, val |-> Const(Prod(res), v)]
FreshM(min, res, pad, map, v) == [kind |-> "mac", min |-> min, res |-> res, pad |-> pad, map |-> map,
                                  face |-> TLCEval([c \in 1..3 |-> Const(Prod(FaceRes(res, c)), v[c])])]
Fresh(x, min, res, pad, map, v) == IF x \in Dense THEN FreshD(min, res, pad, map, v) ELSE FreshM(min, res, pad, map, v)
Init == fld = [x \in Fields |-> Fresh(x, <<0,0,0>>, <<1,1,1>>, 0, 0, Und3)]
Set(x, f) == fld' = [fld EXCEPT ![x] = f]
\* the cell-centred value (twice it): sum of the two faces of each axis
Step(n, r, c) == LET p == Off(n, r) fr == FaceRes(r, c) IN [lo |-> Lin(p, fr), hi |-> Lin([p EXCEPT ![c] = @ + 1], fr)]
Twice(f, n) == [c \in 1..3 |-> LET s == Step(n, f.res, c) IN
   IF UND \in {f.face[c][s.lo], f.face[c][s.hi]} THEN 2 * UND ELSE f.face[c][s.lo] + f.face[c][s.hi]]
Cell(f, n) == IF f.kind = "dense" THEN f.val[n] ELSE LET t == Twice(f, n) IN <<t[1] \div 2, t[2] \div 2, t[3] \div 2>>
\* ---- operations
SetSize(x, min, res, pad) == Set(x, Fresh(x, min, res, pad, fld[x].map, Und3))
SetMapping(x, m) == Set(x, [fld[x] EXCEPT !.map = m])
Clear(x, v) == Set(x, Fresh(x, fld[x].min, fld[x].res, fld[x].pad, fld[x].map, V3(v)))
Write(x, n, v) == x \in Dense /\ n \in DOMAIN fld[x].val /\ Set(x, [fld[x] EXCEPT !.val[n] = V3(v)])
FillF(v, n) == V3(v + (n % 3))
Fill(x, v) == x \in Dense /\ Set(x, [fld[x] EXCEPT !.val = TLCEval([n \in DOMAIN @ |-> FillF(v, n)])])
WriteFace(x, c, n, v) == x \in Mac /\ n \in DOMAIN fld[x].face[c] /\ Set(x, [fld[x] EXCEPT !.face[c][n] = v])
FillFace(x, c, v) == x \in Mac /\ Set(x, [fld[x] EXCEPT !.face[c] = TLCEval([n \in DOMAIN @ |-> v + 2 * (n % 4)])])
Copy(x, y) == x # y /\ fld[x].kind = fld[y].kind /\ Set(x, fld[y])
\* size, mapping and every (cell) value of y
CopyFrom(x, y) == /\ x # y /\ x \in Dense
                  /\ Set(x, [FreshD(fld[y].min, fld[y].res, fld[y].pad, fld[y].map, Und3) EXCEPT !.val = TLCEval([n \in DOMAIN @ |-> Cell(fld[y], n)])])
CopyMAC(x, y) == x # y /\ x \in Mac /\ y \in Mac /\ Set(x, fld[y])
MatchDef(x, y) == x # y /\ Set(x, Fresh(x, fld[y].min, fld[y].res, fld[y].pad, fld[y].map, Und3))
\* what isIdentical must answer
SameDef(a, b) == a.min = b.min /\ a.res = b.res /\ a.pad = b.pad /\ a.map = b.map
Known(a) == \A n \in 1..Prod(a.res) : UND \notin {Cell(a, n)[1], Cell(a, n)[2], Cell(a, n)[3]}
Ident(a, b) == SameDef(a, b) /\ \A n \in 1..Prod(a.res) : Cell(a, n) = Cell(b, n)
Next == \E x \in Fields :
   \/ \E m \in Mins, r \in Ress, p \in Pads : SetSize(x, m, r, p)
   \/ \E v \in Vals : Clear(x, v) \/ Fill(x, v)
   \/ \E n \in 1..Prod(fld[x].res), v \in Vals : Write(x, n, v)
   \/ \E c \in 1..3 : \E n \in 1..Prod(FaceRes(fld[x].res, c)), v \in Vals : WriteFace(x, c, n, v)
   \/ \E y \in Fields : Copy(x, y) \/ CopyFrom(x, y) \/ CopyMAC(x, y) \/ MatchDef(x, y)
Spec == Init /\ [][Next]_fld
---------------------------------------------------------------------------
Shape == \A x \in Fields : LET f == fld[x] IN
   IF f.kind = "dense" THEN Len(f.val) = Prod(f.res) ELSE \A c \in 1..3 : Len(f.face[c]) = Prod(FaceRes(f.res, c))
\* a face belongs to exactly the one or two cells it bounds: summing cell sums counts inner faces twice
FaceSharing == \A x \in Mac : LET f == fld[x] IN \A c \in 1..3 : \A n \in 1..Prod(f.res) : LET s == Step(n, f.res, c) IN s.lo # s.hi /\ s.lo \in DOMAIN f.face[c] /\ s.hi \in DOMAIN f.face[c]
\* an operation changes one field only
OneField == [][\E x \in Fields : \A y \in Fields \ {x} : fld'[y] = fld[y]]_fld
=============================================================================
