----------------------------- MODULE MetadataMC -----------------------------
EXTENDS Metadata
MCNext == (\E o \in Objs, t \in Types, n \in Names, v \in Vals : Set(o, t, n, v)) \/ (\E a, b \in Objs : Copy(a, b)) \/ (\E t \in Types, n \in Names, v \in Vals : SetFile(t, n, v) /\ g = None) \/ Store
MCSpec == Init /\ [][MCNext]_<<m, g>>
=============================================================================
