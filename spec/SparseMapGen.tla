---------------------------- MODULE SparseMapGen ----------------------------
(* Behaviours for replay: every step records the operation and the complete observable state of the
   field it changed. RandomElement picks operands so that a step has few successors. *)
EXTENDS SparseMap, Json
CONSTANT Depth
VARIABLE hist
GMins == Triples(-4..3)
GRess == {r \in Triples(1..6) : Prod(r) <= 60}
GValues == -2..3
Obs(x) == LET f == fld'[x] IN [min |-> f.min, res |-> f.res, order |-> f.order, val |-> f.val,
                               alloc |-> f.alloc, ev |-> f.ev, bres |-> BRes(f.res, f.order)]
Rec(r, x) == hist' = Append(hist, [op |-> r, x |-> x, obs |-> Obs(x)])
R(S) == {RandomElement(S)}
GInit == Init /\ hist = <<>>
\* kinds are repeated to weight them
Kinds == <<"SetSize", "SetOrder", "Clear", "Fill", "Write", "Write", "Write", "Write", "Write", "Write",
           "SetBlockEmpty", "SetBlockEmpty", "ReleaseEqual", "ReleaseEqual", "ReleaseMaxAbs", "Copy", "CopyFrom", "MatchDef">>
Steps(x) == \E kd \in R(DOMAIN Kinds) : LET kind == Kinds[kd] IN
  CASE kind = "SetSize" -> \E m \in R(Mins), r \in R(Ress), k \in R(0..2) : SetSize(x, m, r) /\ Rec([n |-> kind, k |-> k], x)
    [] kind = "SetOrder" -> \E o \in R(Orders) : SetOrder(x, o) /\ Rec([n |-> kind, o |-> o], x)
    [] kind = "Clear" -> \E v \in R(Values) : Clear(x, v) /\ Rec([n |-> kind, v |-> v], x)
    [] kind = "Fill" -> \E v \in R(Values) : Fill(x, v) /\ Rec([n |-> kind, v |-> v], x)
    [] kind = "Write" -> \E n \in R(1..Prod(fld[x].res)), v \in R(Values), k \in R(0..3) :
          Write(x, n, v) /\ Rec([n |-> kind, p |-> Add3(fld[x].min, Off(n, fld[x].res)), v |-> v, k |-> k], x)
    [] kind = "SetBlockEmpty" -> \E b \in R(1..NB(fld[x])), v \in R(Values) :
          SetBlockEmpty(x, b, v) /\ Rec([n |-> kind, b |-> Off(b, BRes(fld[x].res, fld[x].order)), v |-> v], x)
    [] kind = "ReleaseEqual" -> ReleaseEqual(x) /\ Rec([n |-> kind, k |-> 0], x)
    [] kind = "ReleaseMaxAbs" -> \E m \in R({0,1,2,3}) : ReleaseMaxAbs(x, m) /\ Rec([n |-> kind, m |-> m], x)
    [] kind = "Copy" -> \E y \in R(Fields \ {x}), k \in R(0..2) : Copy(x, y) /\ Rec([n |-> kind, y |-> y, k |-> k], x)
    [] kind = "CopyFrom" -> \E y \in R(Fields \ {x}) : CopyFrom(x, y) /\ Rec([n |-> kind, y |-> y], x)
    [] kind = "MatchDef" -> \E y \in R(Fields \ {x}) : MatchDef(x, y) /\ Rec([n |-> kind, y |-> y], x)
\* first give every field a size, then act
GNext ==
  /\ Len(hist) < Depth
  /\ IF Len(hist) < Cardinality(Fields)
     THEN LET x == Len(hist) + 1 IN
          \E m \in R(Mins), r \in R(Ress), o \in R(Orders) :
             /\ fld' = [fld EXCEPT ![x] = Fresh(m, r, o, 0)]
             /\ Rec([n |-> "Start", o |-> o], x)
     ELSE \E x \in R(Fields) : Steps(x)
GSpec == GInit /\ [][GNext]_<<fld, hist>>
Emit == Len(hist) < Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
