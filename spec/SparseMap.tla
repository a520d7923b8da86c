------------------------------ MODULE SparseMap ------------------------------
(* A sparse field as a total map from the voxels of its data window to values, with the storage facts a
   user can observe: which blocks are allocated and each block's empty value. Several fields exist side by
   side so that the independence of copies is part of the state.
   Operation names follow the public API of SparseField. *)
EXTENDS Grid

CONSTANTS Fields,      \* identities of field objects
          Values,      \* values written
          Mins,        \* data window minima
          Ress,        \* data window resolutions
          Orders       \* block orders

VARIABLE fld           \* [Fields -> record]

NB(f) == Prod(BRes(f.res, f.order))

Fresh(min, res, order, v) ==
  [min |-> min, res |-> res, order |-> order,
   bof   |-> TLCEval([n \in 1..Prod(res) |-> BlockOf(n, res, order)]),   \* block of each voxel (derived)
   val   |-> TLCEval([n \in 1..Prod(res) |-> v]),
   alloc |-> TLCEval([b \in 1..Prod(BRes(res, order)) |-> FALSE]),
   ev    |-> TLCEval([b \in 1..Prod(BRes(res, order)) |-> v])]

Empty == Fresh(<<0,0,0>>, <<1,1,1>>, 2, 0)

Init == fld = [x \in Fields |-> Empty]

SetSize(x, min, res) == fld' = [fld EXCEPT ![x] = Fresh(min, res, @.order, 0)]
SetOrder(x, o)       == fld' = [fld EXCEPT ![x] = Fresh(@.min, @.res, o, 0)]
Clear(x, v)          == fld' = [fld EXCEPT ![x] = Fresh(@.min, @.res, @.order, v)]
Write(x, n, v) ==
  /\ n \in 1..Prod(fld[x].res)
  /\ fld' = [fld EXCEPT ![x].val[n] = v,
                        ![x].alloc[fld[x].bof[n]] = TRUE]
\* writing the whole window through an iterator
Fill(x, v) ==
  fld' = [fld EXCEPT ![x].val = [n \in DOMAIN @ |-> v], ![x].alloc = [b \in DOMAIN @ |-> TRUE]]
SetBlockEmpty(x, b, v) ==
  /\ b \in 1..NB(fld[x])
  /\ fld' = [fld EXCEPT ![x].alloc[b] = FALSE, ![x].ev[b] = v,
                        ![x].val = [n \in DOMAIN @ |->
                                      IF fld[x].bof[n] = b THEN v ELSE @[n]]]

\* release every allocated block whose valid voxels satisfy Ok; it becomes uniform with its first voxel
ReleaseWith(x, Ok(_, _)) ==
  LET f == fld[x]
      blk(n) == f.bof[n]
      first(b) == f.val[FirstVox(b, f.res, f.order)]
      rel == {b \in 1..NB(f) : f.alloc[b] /\ \A n \in {m \in DOMAIN f.val : f.bof[m] = b} : Ok(f.val[n], first(b))}
  IN fld' = [fld EXCEPT ![x].alloc = [b \in DOMAIN @ |-> @[b] /\ b \notin rel],
                        ![x].ev = [b \in DOMAIN @ |-> IF b \in rel THEN first(b) ELSE @[b]],
                        ![x].val = [n \in DOMAIN @ |-> IF blk(n) \in rel THEN first(blk(n)) ELSE @[n]]]
ReleaseEqual(x)     == ReleaseWith(x, LAMBDA v, f : v = f)
ReleaseMaxAbs(x, m) == ReleaseWith(x, LAMBDA v, f : Abs(v) >= m)

Copy(x, y) == /\ x # y /\ fld' = [fld EXCEPT ![x] = fld[y]]       \* x := copy of y, storage included
\* copyFrom: x keeps its own block order, takes size and every value; every block gets written
CopyFrom(x, y) ==
  /\ x # y
  /\ fld' = [fld EXCEPT ![x] = [Fresh(fld[y].min, fld[y].res, @.order, 0) EXCEPT
                                   !.val = fld[y].val, !.alloc = [b \in DOMAIN @ |-> TRUE]]]
MatchDef(x, y) == /\ x # y /\ SetSize(x, fld[y].min, fld[y].res)

Next ==
  \E x \in Fields :
     \/ \E m \in Mins, r \in Ress : SetSize(x, m, r)
     \/ \E o \in Orders : SetOrder(x, o)
     \/ \E v \in Values : Clear(x, v) \/ Fill(x, v)
     \/ \E n \in 1..Prod(fld[x].res), v \in Values : Write(x, n, v)
     \/ \E b \in 1..NB(fld[x]), v \in Values : SetBlockEmpty(x, b, v)
     \/ ReleaseEqual(x)
     \/ \E v \in Values : ReleaseMaxAbs(x, v)
     \/ \E y \in Fields : Copy(x, y) \/ CopyFrom(x, y) \/ MatchDef(x, y)

Spec == Init /\ [][Next]_fld

---------------------------------------------------------------------------
Shape == \A x \in Fields : LET f == fld[x] IN
  /\ Len(f.val) = Prod(f.res) /\ Len(f.alloc) = NB(f) /\ Len(f.ev) = NB(f)
\* an unallocated block is uniform with its empty value
Uniform == \A x \in Fields : LET f == fld[x] IN
  \A n \in DOMAIN f.val : LET b == f.bof[n] IN ~f.alloc[b] => f.val[n] = f.ev[b]
\* blocks tile the window
Tiling == \A x \in Fields : LET f == fld[x] IN
  \A n \in DOMAIN f.val : f.bof[n] \in 1..NB(f)
\* releasing never changes values when it checks equality; a write changes one voxel only
OneVoxel == [][ \A x \in Fields :
                   (fld'[x].res = fld[x].res /\ fld'[x].min = fld[x].min /\ fld'[x].order = fld[x].order
                      /\ \E b \in DOMAIN fld[x].alloc : ~fld[x].alloc[b] /\ fld'[x].alloc[b])
                   => \/ Cardinality({n \in DOMAIN fld[x].val : fld[x].val[n] # fld'[x].val[n]}) <= 1
                      \/ \A b \in DOMAIN fld[x].alloc : fld'[x].alloc[b]
                      \/ \E y \in Fields \ {x} : fld'[x] = fld[y] ]_fld
=============================================================================
