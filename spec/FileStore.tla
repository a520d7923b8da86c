----------------------------- MODULE FileStore -----------------------------
\* Files that hold layers in partitions (F02), and the file objects that write and read them (F03).
\* A layer is written under a partition name and a layer name and carries the mapping its field had at that moment.
\* On disk a partition has one mapping and its layers have different names, so one user-level partition is kept as numbered
\* internal ones: a layer goes to the first internal partition with its mapping, or to a new one when there is none or when
\* that one already has a layer of that name.
EXTENDS Integers, Sequences, FiniteSets, TLC
Layer(p, l, v, pr, c, m) == [part |-> p, layer |-> l, vec |-> v, prec |-> pr, cid |-> c, map |-> m]
\* ---- the organisation on disk -------------------------------------------------------------------
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Matching(ps, x) == {i \in DOMAIN ps : ps[i].base = x.part /\ ps[i].map = x.map}
HasLayer(p, n) == \E i \in DOMAIN p.layers : p.layers[i].layer = n
Next0(cnt, b) == IF b \in DOMAIN cnt THEN cnt[b] + 1 ELSE 0
Place(f, x) == \* f = [parts, cnt]
  LET m == Matching(f.parts, x) IN
  IF m # {} /\ ~HasLayer(f.parts[Min(m)], x.layer)
  THEN [f EXCEPT !.parts[Min(m)].layers = Append(@, x)]
  ELSE [parts |-> Append(f.parts, [base |-> x.part, idx |-> Next0(f.cnt, x.part), map |-> x.map, layers |-> <<x>>]),
        cnt |-> (x.part :> Next0(f.cnt, x.part)) @@ f.cnt]
EmptyFile == [parts |-> <<>>, cnt |-> <<>>]
\* what a reader finds by walking the internal partitions
PartNames(ps) == {ps[i].base : i \in DOMAIN ps}
NumInt(ps, b) == Cardinality({i \in DOMAIN ps : ps[i].base = b})
LayersOf(p) == {p.layers[i] : i \in DOMAIN p.layers}
NamesIn(ps, b) == {y.layer : y \in UNION {LayersOf(ps[i]) : i \in {i \in DOMAIN ps : ps[i].base = b /\ ps[i].idx \in 0..(NumInt(ps, b) - 1)}}}
\* every layer with the mapping its partition has in the file
Found(ps) == UNION {{[y EXCEPT !.map = ps[i].map] : y \in LayersOf(ps[i])} : i \in DOMAIN ps}
\* ---- what the user relies on ----------------------------------------------------------------------
Faithful(ps, log) ==
  /\ Found(ps) = log
  /\ PartNames(ps) = {y.part : y \in log}
  /\ \A b \in PartNames(ps) : NamesIn(ps, b) = {y.layer : y \in {z \in log : z.part = b}}
  /\ \A i, j \in DOMAIN ps : i # j => <<ps[i].base, ps[i].idx>> # <<ps[j].base, ps[j].idx>>
  /\ \A i \in DOMAIN ps : \A a, b \in DOMAIN ps[i].layers : a # b => ps[i].layers[a].layer # ps[i].layers[b].layer
\* the answer to a query: the layers of contents that match exactly ("*" asks for all of them)
Answer(contents, p, l, v, pr) == {y \in contents : (p = "*" \/ y.part = p) /\ (l = "*" \/ y.layer = l) /\ y.vec = v /\ y.prec = pr}
=============================================================================
