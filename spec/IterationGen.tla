---------------------------- MODULE IterationGen ----------------------------
EXTENDS Iteration, Json
CONSTANTS Depth
VARIABLES hist, scn
R(S) == {RandomElement(S)}
GRess == {r \in Triples(1..7) : Prod(r) <= 64}
GMins == Triples(-5..5)
RECURSIVE IncN(_, _)
IncN(t, k) == IF k = 0 \/ t.done THEN t ELSE IncN(Inc(t), k-1)
FaceHi(hi, c) == IF c \in 1..3 THEN [hi EXCEPT ![c] = @ + 1] ELSE hi
CellHi == [n \in 1..3 |-> scn.min[n] + scn.res[n] - 1]
ValAt(p) == scn.val[Lin(Sub3(p, box.min), ResOf(box.min, box.max))]
WithVal(s) == TLCEval([n \in DOMAIN s |-> <<s[n][1], s[n][2], s[n][3], ValAt(s[n])>>])
Rec(r) == hist' = Append(hist, r)
Scenario ==
  \E m \in R(GMins), r \in R(GRess), o \in R(0..3), c \in R({0, 0, 0, 1, 2, 3, 4}), pad \in R(0..2) :
  \E al \in R([1..Prod(BRes(r, o)) -> {TRUE, FALSE}]), ev \in R([1..Prod(BRes(r, o)) -> {-2, -1}]) :
  LET hi == FaceHi(<<m[1]+r[1]-1, m[2]+r[2]-1, m[3]+r[3]-1>>, c) fr == ResOf(m, hi)
      val == TLCEval([n \in 1..Prod(fr) |-> IF c = 0 /\ ~al[BlockOf(n, r, o)] THEN ev[BlockOf(n, r, o)] ELSE ((n * 7) % 29) + 1])
      s == [min |-> m, res |-> r, order |-> o, c |-> c, pad |-> pad, al |-> al, ev |-> ev, val |-> val] IN
  /\ box' = [min |-> m, max |-> hi] /\ it' = [i \in Its |-> None] /\ scn' = s
  /\ Rec([n |-> "Scenario", s |-> s, hi |-> hi,
          blocks |-> TLCEval([b \in 1..NumBlocks(m, <<m[1]+r[1]-1, m[2]+r[2]-1, m[3]+r[3]-1>>, o) |-> BlockBox(b, m, <<m[1]+r[1]-1, m[2]+r[2]-1, m[3]+r[3]-1>>, o)]),
          grains |-> TLCEval([n \in 1..(r[2]*r[3]) |-> ScanLine(n, m, <<m[1]+r[1]-1, m[2]+r[2]-1, m[3]+r[3]-1>>)])])
GInit == box = [min |-> <<0,0,0>>, max |-> <<0,0,0>>] /\ Init /\ hist = <<>> /\ scn = <<>>
New(t, t0) == SubSeq(t.seen, Len(t0.seen) + 1, Len(t.seen))
StartBox(i, lo, hi, kind) ==
  LET t == IF Empty(lo, hi) THEN [None EXCEPT !.lo = lo, !.hi = hi] ELSE Begin(lo, FaceHi(hi, scn.c)) IN
  /\ it' = [it EXCEPT ![i] = t] /\ UNCHANGED <<box, scn>>
  /\ Rec([n |-> kind, i |-> i, lo |-> lo, hi |-> hi, vis |-> WithVal(t.seen), done |-> t.done])
StepN(i, k) == LET t == IncN(it[i], k) IN
  /\ ~it[i].done /\ it' = [it EXCEPT ![i] = t] /\ UNCHANGED <<box, scn>>
  /\ Rec([n |-> "Step", i |-> i, k |-> k, vis |-> WithVal(New(t, it[i])), done |-> t.done])
CopyIt(i, j, kind) ==
  /\ Assign(i, j) /\ UNCHANGED scn
  /\ Rec([n |-> kind, i |-> i, j |-> j, done |-> it[j].done, vis |-> IF it[j].done THEN <<>> ELSE WithVal(<<it[j].pos>>)])
Kinds == <<"Whole", "Box", "Box", "Block", "Tiny", "Empty", "Step", "Step", "Step", "Step", "Step", "Finish", "Finish", "Copy", "Copy", "Assign", "Assign">>
SmallLen == 1..3
Pick(i, kd) ==
  CASE kd = "Whole" -> StartBox(i, scn.min, CellHi, "Whole")
    [] kd = "Box" -> \E a \in R(BoxVox(scn.min, CellHi)) : \E b \in R(BoxVox(a, CellHi)) : StartBox(i, a, b, "Box")
    [] kd = "Block" -> \E b \in R(DOMAIN hist[1].blocks) : StartBox(i, hist[1].blocks[b].min, hist[1].blocks[b].max, "Box")
    [] kd = "Tiny" -> \E a \in R(BoxVox(scn.min, CellHi)) : StartBox(i, a, a, "Box")
    [] kd = "Empty" -> \E a \in R(BoxVox(scn.min, CellHi)) : \E c \in R(1..3), d \in R(1..3) : StartBox(i, a, [a EXCEPT ![c] = @ - d], "Box")
    [] kd = "Step" -> \E k \in R(1..9) : StepN(i, k)
    [] kd = "Finish" -> StepN(i, 1000)
    [] kd = "Copy" -> \E j \in R(Its \ {i}) : CopyIt(i, j, "Copy")
    [] kd = "Assign" -> \E j \in R(Its \ {i}) : CopyIt(i, j, "Assign")
GNext ==
  /\ Len(hist) < Depth
  /\ IF Len(hist) = 0 THEN Scenario
     ELSE IF Len(hist) <= Cardinality(Its) THEN Pick(Len(hist), IF Len(hist) = 1 THEN "Whole" ELSE "Box")
     ELSE \E kd \in R(DOMAIN Kinds), i \in R(Its) : Pick(i, IF it[i].done /\ Kinds[kd] \in {"Step", "Finish"} THEN (IF kd % 2 = 0 THEN "Box" ELSE "Whole") ELSE Kinds[kd])
GSpec == GInit /\ [][GNext]_<<box, it, hist, scn>>
Emit == Len(hist) < Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
