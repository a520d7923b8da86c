--------------------------- MODULE ArrayFieldsGen ---------------------------
EXTENDS ArrayFields, Json
CONSTANTS Depth, Flavor
VARIABLE hist
GMins == Triples(-4..3)
GRess == {r \in Triples(1..5) : Prod(r) <= 36}
GVals == {-4, -2, 0, 2, 4, 6}
GPads == 0..2
R(S) == {RandomElement(S)}
Others(x) == [y \in Fields |-> y]
Rec(r, x) == hist' = Append(hist, [op |-> r, x |-> x, obs |-> fld'[x],
     ident |-> TLCEval([y \in Fields |-> IF y = x \/ ~Known(fld'[x]) \/ ~Known(fld'[y]) THEN 2 ELSE IF Ident(fld'[x], fld'[y]) THEN 1 ELSE 0]), same |-> TLCEval([y \in Fields |-> (y # x) /\ SameDef(fld'[x], fld'[y])])])
GInit == Init /\ hist = <<>>
KindsD == <<"SetSize", "Clear", "Fill", "SetMapping", "SetMapping", "Clear", "Write", "Write", "Write", "Write", "Fill", "Copy", "Copy", "Copy", "CopyFrom", "CopyFrom", "MatchDef">>
KindsM == <<"SetSize", "Clear", "SetMapping", "Clear", "WriteFace", "WriteFace", "WriteFace", "WriteFace", "FillFace", "FillFace", "Copy", "Copy", "CopyMAC", "MatchDef">>
Same(x) == {y \in Fields \ {x} : fld[y].kind = fld[x].kind}
Steps(x) == LET Ks == IF x \in Dense THEN KindsD ELSE KindsM IN \E kd \in R(DOMAIN Ks) : LET kind == Ks[kd] f == fld[x] IN
  CASE kind = "SetSize" -> \E m \in R(Mins), r \in R(Ress), p \in R(Pads), k \in R(0..2) : SetSize(x, m, r, p) /\ Rec([n |-> kind, k |-> k], x)
    [] kind = "SetMapping" -> \E m \in R(0..3) : SetMapping(x, m) /\ Rec([n |-> kind, m |-> m], x)
    [] kind = "Clear" -> \E v \in R(Vals) : Clear(x, v) /\ Rec([n |-> kind, v |-> v], x)
    [] kind = "Fill" -> \E v \in R(Vals), k \in R(0..1) : Fill(x, v) /\ Rec([n |-> kind, v |-> v, k |-> k], x)
    [] kind = "Write" -> \E n \in R(1..Prod(f.res)), v \in R(Vals), k \in R(0..4) : Write(x, n, v) /\ Rec([n |-> kind, p |-> Add3(f.min, Off(n, f.res)), v |-> v, k |-> k], x)
    [] kind = "WriteFace" -> \E c \in R(1..3), v \in R(Vals), k \in R(0..1) : \E n \in R(1..Prod(FaceRes(f.res, c))) :
          WriteFace(x, c, n, v) /\ Rec([n |-> kind, c |-> c, p |-> Add3(f.min, Off(n, FaceRes(f.res, c))), v |-> v, k |-> k], x)
    [] kind = "FillFace" -> \E c \in R(1..3), v \in R(Vals) : FillFace(x, c, v) /\ Rec([n |-> kind, c |-> c, v |-> v], x)
    [] kind = "Copy" -> IF Same(x) = {} THEN FALSE ELSE \E y \in R(Same(x)), k \in R(0..2) : Copy(x, y) /\ Rec([n |-> kind, y |-> y, k |-> k], x)
    [] kind = "CopyFrom" -> \E y \in R(Fields \ {x}) : CopyFrom(x, y) /\ Rec([n |-> kind, y |-> y], x)
    [] kind = "CopyMAC" -> \E y \in R(Same(x)) : CopyMAC(x, y) /\ Rec([n |-> kind, y |-> y], x)
    [] kind = "MatchDef" -> \E y \in R(Fields \ {x}) : MatchDef(x, y) /\ Rec([n |-> kind, y |-> y], x)
GNext ==
  /\ Len(hist) < Depth
  /\ IF Len(hist) < Cardinality(Fields)
     THEN LET x == Len(hist) + 1 IN \E m \in R(Mins), r \in R(Ress), p \in R(Pads) : Set(x, Fresh(x, m, r, p, 0, V3(2))) /\ Rec([n |-> "Start"], x)
     ELSE \E x \in R(Fields) : Steps(x)
GSpec == GInit /\ [][GNext]_<<fld, hist>>
Emit == Len(hist) < Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
