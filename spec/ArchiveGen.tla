----------------------------- MODULE ArchiveGen ------------------------------
\* plans of files to write and of the places where writing stops or the finished file is cut; what may be read back is decided here
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Format, MaxLayers, MaxImages
VARIABLES layers, meta, phase, hist
vars == <<layers, meta, phase, hist>>
PartN == <<"p", "p", "q", "default", "long_partition_name_0123456789">>
LayerN == <<"a", "b", "v", "c", "d">>
Pick(S) == CHOOSE x \in S : TRUE
\* structures: 1 dense, 2 sparse, 3 staggered (HDF5, vectors), 4 multi-resolution; size: 1 one voxel, 2 small, 3 several blocks, 4 lopsided
RandLayer(id) == [part |-> PartN[RandomElement(DOMAIN PartN)], layer |-> LayerN[RandomElement(DOMAIN LayerN)] \o ToString(id), str |-> RandomElement({1, 1, 2, 2, 2, 4}), vec |-> RandomElement(BOOLEAN), prec |-> RandomElement(1..3),
  map |-> RandomElement(0..3), size |-> RandomElement({1, 2, 2, 3, 4}), order |-> RandomElement(1..3), alloc |-> RandomElement(0..4), meta |-> RandomElement(0..3), cid |-> id]
Fix(x) == IF Format = "hdf5" /\ x.vec /\ x.str = 4 THEN [x EXCEPT !.str = 3] ELSE x
Record(q) == hist' = Append(hist, q)
Write == /\ phase = "writing" /\ Len(layers) < MaxLayers
  /\ \E x \in {Fix(y) : y \in {RandLayer(Len(layers) + 1)}}, th \in {RandomElement({1, 1, 3})} : layers' = Append(layers, x) /\ Record([n |-> "Write", x |-> x, th |-> th])
  /\ UNCHANGED <<meta, phase>>
Meta == phase = "writing" /\ meta = 0 /\ \E m \in {RandomElement(1..900)} : meta' = m /\ Record([n |-> "Meta", m |-> m]) /\ UNCHANGED <<layers, phase>>
Close == phase = "writing" /\ Len(layers) > 0 /\ phase' = "closed" /\ Record([n |-> "Close", layers |-> layers, meta |-> meta]) /\ UNCHANGED <<layers, meta>>
\* places are given in millionths of the operations (stop), of the bytes of one operation (torn) and of the bytes of the finished file (cut)
Millionths(n) == RandomElement(0..1000000)
\* what an image may show: nothing, or layers exactly as written; the mark only appears once the writer has closed the file
May == [layers |-> {layers[i].cid : i \in DOMAIN layers}, done |-> FALSE]
Images == phase = "closed" /\ Len(hist) < 40 /\ phase' = "done" /\ UNCHANGED <<layers, meta>>
  /\ Record([n |-> "Images", stop |-> [i \in 1..MaxImages |-> Millionths(i)], torn |-> [i \in 1..MaxImages |-> <<Millionths(i), Millionths(i)>>], fault |-> [i \in 1..8 |-> <<Millionths(i), Format = "hdf5" \/ RandomElement(BOOLEAN)>>], cut |-> [i \in 1..MaxImages |-> Millionths(i)], may |-> May])
Kinds == <<"Write", "Write", "Write", "Meta", "Close">>
Step == IF phase = "closed" THEN Images ELSE IF phase = "done" THEN FALSE ELSE
  \E kd \in {Kinds[RandomElement(DOMAIN Kinds)]} : CASE kd = "Write" /\ Len(layers) < MaxLayers -> Write [] kd = "Meta" /\ meta = 0 /\ Len(layers) > 0 -> Meta [] kd = "Close" /\ Len(layers) > 0 -> Close [] OTHER -> (IF Len(layers) < MaxLayers THEN Write ELSE Close)
Init == layers = <<>> /\ meta = 0 /\ phase = "writing" /\ hist = <<>>
Spec == Init /\ [][Step]_vars
\* (a plan is over when its images are chosen)
Emit == IF phase = "done" THEN PrintT(<<"BEH", ToJson(hist)>>) ELSE TRUE
=============================================================================
