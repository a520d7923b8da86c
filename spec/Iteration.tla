------------------------------ MODULE Iteration ------------------------------
(* Iterators over boxes of voxels. The state machine steps as its definition says (carry from x to y to z); the
   properties say it enumerates the box: every voxel once, in scanline order, then it is at its end for good.
   Blocks and grains partition the data window. A box with no voxels is at its end from the start. *)
EXTENDS Grid
CONSTANTS Its                        \* iterator identities
VARIABLES box,                       \* data window iterated over: [min, max] (of the faces, for a staggered component)
          it                         \* iterator -> [lo, hi, pos, seen] or None
None == [lo |-> <<0,0,0>>, hi |-> <<-1,-1,-1>>, pos |-> <<0,0,0>>, done |-> TRUE, seen |-> <<>>]
Empty(lo, hi) == \E c \in 1..3 : hi[c] < lo[c]
BoxVox(lo, hi) == {<<x, y, z>> : x \in lo[1]..hi[1], y \in lo[2]..hi[2], z \in lo[3]..hi[3]}
ResOf(lo, hi) == << hi[1]-lo[1]+1, hi[2]-lo[2]+1, hi[3]-lo[3]+1 >>
\* one increment
Carry(t) == LET p == t.pos IN
  IF p[1] < t.hi[1] THEN <<p[1]+1, p[2], p[3]>>
  ELSE IF p[2] < t.hi[2] THEN <<t.lo[1], p[2]+1, p[3]>> ELSE <<t.lo[1], t.lo[2], p[3]+1>>
Begin(lo, hi) == [lo |-> lo, hi |-> hi, pos |-> lo, done |-> Empty(lo, hi), seen |-> IF Empty(lo, hi) THEN <<>> ELSE <<lo>>]
Inc(t) == LET q == Carry(t) IN [t EXCEPT !.pos = q, !.done = q[3] > t.hi[3], !.seen = IF q[3] > t.hi[3] THEN @ ELSE Append(@, q)]
Start(i, lo, hi) == it' = [it EXCEPT ![i] = Begin(lo, hi)] /\ UNCHANGED box
Step(i) == ~it[i].done /\ it' = [it EXCEPT ![i] = Inc(@)] /\ UNCHANGED box
Assign(i, j) == i # j /\ it' = [it EXCEPT ![i] = it[j]] /\ UNCHANGED box
Init == it = [i \in Its |-> None]
SubBoxes == {b \in BoxVox(box.min, box.max) \X BoxVox(Sub3(box.min, <<1,1,1>>), box.max) : TRUE}
Next == \E i \in Its : (\E b \in SubBoxes : Start(i, b[1], b[2])) \/ Step(i) \/ \E j \in Its : Assign(i, j)
---------------------------------------------------------------------------
\* the linear enumeration
Scan(lo, hi) == IF Empty(lo, hi) THEN <<>> ELSE LET r == ResOf(lo, hi) IN [n \in 1..Prod(r) |-> Add3(lo, Off(n, r))]
IsPrefixOf(s, t) == Len(s) <= Len(t) /\ \A n \in 1..Len(s) : s[n] = t[n]
Enumerates == \A i \in Its : LET t == it[i] IN
   /\ IsPrefixOf(t.seen, Scan(t.lo, t.hi))
   /\ t.done <=> (Empty(t.lo, t.hi) \/ (Len(t.seen) = Prod(ResOf(t.lo, t.hi)) /\ t.pos = <<t.lo[1], t.lo[2], t.hi[3] + 1>>))
   /\ ~t.done => t.pos = t.seen[Len(t.seen)]
   /\ \A a, b \in 1..Len(t.seen) : a # b => t.seen[a] # t.seen[b]
\* ---- blocks and grains of a window lo..hi
BlockBox(b, lo, hi, o) == LET q == Off(b, BRes(ResOf(lo, hi), o)) s == Pow2(o) mn == Add3(lo, <<q[1]*s, q[2]*s, q[3]*s>>) IN
   [min |-> mn, max |-> << Min2(mn[1]+s-1, hi[1]), Min2(mn[2]+s-1, hi[2]), Min2(mn[3]+s-1, hi[3]) >>,
    full |-> mn[1]+s-1 <= hi[1] /\ mn[2]+s-1 <= hi[2] /\ mn[3]+s-1 <= hi[3]]
NumBlocks(lo, hi, o) == Prod(BRes(ResOf(lo, hi), o))
ScanLine(n, lo, hi) == LET r == ResOf(lo, hi) IN [min |-> <<lo[1], lo[2] + ((n-1) % r[2]), lo[3] + (n-1) \div r[2]>>, max |-> <<hi[1], lo[2] + ((n-1) % r[2]), lo[3] + (n-1) \div r[2]>>]
PartitionedBy(S, lo, hi) == \A v \in BoxVox(lo, hi) : Cardinality({n \in DOMAIN S : \A c \in 1..3 : S[n].min[c] <= v[c] /\ v[c] <= S[n].max[c]}) = 1
BlocksPartition == \A o \in 0..2 : PartitionedBy([b \in 1..NumBlocks(box.min, box.max, o) |-> BlockBox(b, box.min, box.max, o)], box.min, box.max)
GrainsPartition == LET r == ResOf(box.min, box.max) IN PartitionedBy([n \in 1..(r[2]*r[3]) |-> ScanLine(n, box.min, box.max)], box.min, box.max)
EndsForGood == [][\A i \in Its : it[i].done /\ it'[i] # it[i] => it'[i].pos = it'[i].lo \/ \E j \in Its : it'[i] = it[j]]_it
=============================================================================
