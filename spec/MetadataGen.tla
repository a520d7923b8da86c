---------------------------- MODULE MetadataGen -----------------------------
EXTENDS Metadata, Json
CONSTANTS Depth, NN, NV
VARIABLES hist, shared
R(S) == {RandomElement(S)}
TypeSeq == <<"s", "i", "f", "vi", "vf">>
\* with shared = FALSE a name belongs to one type, so either format can hold the entries
NameOf(t, k) == IF shared THEN k ELSE ((k \div 5) * 5) + (CHOOSE i \in 1..5 : TypeSeq[i] = t) - 1
Dump(x) == TLCEval([t \in Types |-> [k \in 1..NN |-> IF (k - 1) \in DOMAIN x[t] THEN x[t][k-1] ELSE -1]])
vars == <<m, g, hist, shared>>
GInit == Init /\ hist = <<>> /\ shared = FALSE
Kinds == <<"Set", "Set", "Set", "Set", "Set", "SetFile", "SetFile", "Copy", "Store">>
Rec(r) == hist' = Append(hist, r @@ [m |-> [o \in Objs |-> Dump(m'[o])]])
GStep == \E kd \in {Kinds[RandomElement(DOMAIN Kinds)]}, o \in R(Objs), p \in R(Objs), t \in R(Types), k0 \in R(0..(NN-1)), v \in R(0..(NV-1)), fmt \in R({0, 1}), x \in R(0..9) :
  \E k \in {NameOf(t, k0)} :
  CASE kd = "Set" -> Set(o, t, k, v) /\ Rec([n |-> kd, o |-> o, t |-> t, k |-> k, v |-> v])
    [] kd = "SetFile" -> SetFile(t, k, v) /\ Rec([n |-> kd])
    [] kd = "Copy" -> Copy(o, p) /\ Rec([n |-> kd, a |-> o, b |-> p, how |-> x])
    [] kd = "Store" -> Store /\ Rec([n |-> kd, fmt |-> fmt, x |-> x, g |-> Dump(g), clash |-> (Clash(g) \/ \E q \in Objs : Clash(m[q]))])
GNext == Len(hist) < Depth /\ IF hist = <<>> THEN (\E b \in R({TRUE, FALSE}) : shared' = b /\ UNCHANGED <<m, g>> /\ hist' = <<[n |-> "Start"]>>) ELSE GStep /\ UNCHANGED shared
GSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) < Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
