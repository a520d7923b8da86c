---------------------------- MODULE FileStoreGen ----------------------------
\* two writing and two reading objects used over and over on four paths, in both formats; what every reader must report is recorded after each step
EXTENDS FileStore, Json
CONSTANTS Depth, Focus
VARIABLES disk, ws, rs, nid, hist
vars == <<disk, ws, rs, nid, hist>>
R(S) == {RandomElement(S)}
Pick(S) == CHOOSE x \in S : TRUE
Seq2(S) == IF S = {} THEN <<>> ELSE CHOOSE s \in [1..Cardinality(S) -> S] : {s[i] : i \in DOMAIN s} = S
Paths == 1..4
PartN == <<"p", "p", "p", "p.0", "a.b", "q", "default">>
LayerN == <<"a", "a", "b", "a.0", "v", "c">>
Absent == [kind |-> "absent"]
RandPart(n) == PartN[RandomElement(DOMAIN PartN)]
RandLayer(n) == LayerN[RandomElement(DOMAIN LayerN)]
\* structures: 1 dense, 2 sparse, 3 staggered (vectors only; Ogawa cannot hold it), 4 multi-resolution
RandX(id) == [part |-> RandPart(0), layer |-> IF RandomElement(1..25) = 1 THEN "mapping" ELSE RandLayer(0), vec |-> RandomElement(BOOLEAN), prec |-> RandomElement(1..3), map |-> RandomElement(0..3),
              cid |-> id, str |-> RandomElement({1, 1, 2, 2, 3, 4}), api |-> RandomElement(0..3), again |-> RandomElement(1..4) = 1]
\* api 2: no partition given, so "default"; again: the field object written just before is written again with its mapping changed in place
Norm(x, prev) == LET y == IF x.str = 3 /\ ~x.vec THEN [x EXCEPT !.str = 1] ELSE x
  z == IF y.api = 2 THEN [y EXCEPT !.part = "default"] ELSE y
  IN IF z.again /\ prev # <<>> /\ prev[1].map \in {1, 2} THEN [z EXCEPT !.map = 3 - prev[1].map, !.vec = prev[1].vec, !.prec = prev[1].prec, !.str = prev[1].str, !.cid = prev[1].cid] ELSE [z EXCEPT !.again = FALSE]
RECURSIVE Batch(_, _, _)
Batch(n, id, acc) == IF n = 0 THEN acc ELSE Batch(n - 1, id + 1, Append(acc, Pick({Norm(x, IF acc = <<>> THEN <<>> ELSE <<acc[Len(acc)]>>) : x \in {RandX(id)}})))
Accepts(fmt, x) == x.layer # "mapping" /\ ~(fmt = "ogawa" /\ x.str = 3)
\* ---- who uses what ----------------------------------------------------------------------------
Writing(p) == \E i \in 1..2 : ws[i].open /\ ws[i].path = p
Reading(p) == \E i \in 1..2 : rs[i].open /\ rs[i].path = p
Free == {p \in Paths : ~Writing(p) /\ ~Reading(p)}
View(i, d, rr) == IF ~rr[i].open THEN [open |-> FALSE, failed |-> rr[i].failed] ELSE LET f == d[rr[i].path] IN [open |-> TRUE, fmt |-> f.fmt, meta |-> f.meta, layers |-> f.layers, ph |-> f.ph]
Rec(q) == hist' = Append(hist, q @@ [rd |-> [i \in 1..2 |-> View(i, disk', rs')]])
Nop == UNCHANGED <<disk, ws, rs, nid>> /\ Rec([n |-> "Nop"])
\* ---- writing ------------------------------------------------------------------------------------
CreateOn(i, p, fmt, keep) ==
  LET ok == (disk[p].kind = "absent") \/ (~keep /\ ~(disk[p].kind = "junk" /\ disk[p].sort = 5)) IN
  /\ disk' = IF ok THEN [disk EXCEPT ![p] = [kind |-> "file", fmt |-> fmt, layers |-> <<>>, ph |-> <<>>, meta |-> 0]] ELSE disk
  /\ ws' = [ws EXCEPT ![i] = [open |-> ok, path |-> p, made |-> TRUE]]
  /\ UNCHANGED <<rs, nid>>
  /\ Rec([n |-> "Create", o |-> i, path |-> p, fmt |-> fmt, keep |-> keep, ok |-> ok])
\* (HDF5 will not truncate a file it holds open, so a writer does not create again the file it is writing)
Create == IF Free = {} THEN Nop ELSE \E i \in R(1..2), p \in R(Free), fmt \in R({"ogawa", "hdf5"}), keep \in R({FALSE, FALSE, TRUE}) : CreateOn(i, p, fmt, keep)
CreateNowhere == \E i \in R(1..2), fmt \in R({"ogawa", "hdf5"}), keep \in R(BOOLEAN) : ws' = [ws EXCEPT ![i] = [open |-> FALSE, path |-> 1, made |-> TRUE]] /\ UNCHANGED <<disk, rs, nid>> /\ Rec([n |-> "CreateNowhere", o |-> i, fmt |-> fmt, keep |-> keep])
Good(fmt, b) == SelectSeq(b, LAMBDA x : Accepts(fmt, x))
Bad(fmt, b) == SelectSeq(b, LAMBDA x : ~Accepts(fmt, x))
AsLayer(x) == Layer(x.part, x.layer, x.vec, x.prec, x.cid, x.map) @@ [str |-> x.str]
Write == \E i \in {IF \E j \in 1..2 : ws[j].open THEN RandomElement({j \in 1..2 : ws[j].open}) ELSE RandomElement(1..2)} : \E b \in {Batch(IF Focus = "layers" THEN RandomElement(3..7) ELSE RandomElement({1, 2, 2, 3, 4}), nid, <<>>)} :
  IF ~ws[i].open THEN IF ~ws[i].made THEN Nop ELSE UNCHANGED <<disk, ws, rs, nid>> /\ Rec([n |-> "Write", o |-> i, b |-> b, ok |-> [k \in DOMAIN b |-> FALSE]])
  ELSE LET p == ws[i].path fmt == disk[p].fmt IN
    /\ disk' = [disk EXCEPT ![p].layers = @ \o [k \in DOMAIN Good(fmt, b) |-> AsLayer(Good(fmt, b)[k])], ![p].ph = @ \o [k \in DOMAIN Bad(fmt, b) |-> AsLayer(Bad(fmt, b)[k])]]
    /\ nid' = nid + Len(b) /\ UNCHANGED <<ws, rs>>
    /\ Rec([n |-> "Write", o |-> i, b |-> b, ok |-> [k \in DOMAIN b |-> Accepts(fmt, b[k])]])
Meta == IF ~\E j \in 1..2 : ws[j].open /\ disk[ws[j].path].meta = 0 THEN Nop ELSE
  \E i \in R({j \in 1..2 : ws[j].open /\ disk[ws[j].path].meta = 0}), m \in R(1..900) : disk' = [disk EXCEPT ![ws[i].path].meta = m] /\ UNCHANGED <<ws, rs, nid>> /\ Rec([n |-> "Meta", o |-> i, m |-> m])
\* how: 1 close(), 2 the object is destroyed
CloseW == \E i \in {IF \E j \in 1..2 : ws[j].open THEN RandomElement({j \in 1..2 : ws[j].open}) ELSE RandomElement(1..2)} : \E how \in R({1, 1, 1, 2}) :
  ws' = [ws EXCEPT ![i] = [open |-> FALSE, path |-> 1, made |-> how # 2 /\ ws[i].made]] /\ UNCHANGED <<disk, rs, nid>> /\ Rec([n |-> "CloseW", o |-> i, how |-> how])
\* ---- reading ------------------------------------------------------------------------------------
Ready == {p \in Paths : ~Writing(p)}
Open == IF Ready = {} THEN Nop ELSE \E i \in R(1..2), p \in {RandomElement(IF RandomElement(1..4) > 1 /\ \E x \in Ready : disk[x].kind = "file" THEN {x \in Ready : disk[x].kind = "file"} ELSE Ready)} :
  LET ok == disk[p].kind = "file" IN rs' = [rs EXCEPT ![i] = [open |-> ok, path |-> p, failed |-> ~ok]] /\ UNCHANGED <<disk, ws, nid>> /\ Rec([n |-> "Open", o |-> i, path |-> p, ok |-> ok])
CloseR == \E i \in R(1..2), how \in R({1, 2}) : rs' = [rs EXCEPT ![i] = [open |-> FALSE, path |-> 1, failed |-> FALSE]] /\ UNCHANGED <<disk, ws, nid>> /\ Rec([n |-> "CloseR", o |-> i, how |-> how])
\* ---- questions ------------------------------------------------------------------------------------
Contents(i) == IF rs[i].open THEN disk[rs[i].path].layers ELSE <<>>
Cids(s, T(_)) == LET q == SelectSeq(s, T) IN [k \in DOMAIN q |-> <<q[k].cid, q[k].map>>]
QueryOf(i, p, l, v, pr, api) == LET s == Contents(i)
    Y(y) == (p = "*" \/ y.part = p) /\ (l = "*" \/ y.layer = l)
    M(y) == IF api < 3 THEN y \in Answer({s[k] : k \in DOMAIN s}, p, l, v, pr) ELSE Y(y) /\ y.vec = v
    L(y) == IF api < 3 THEN M(y) ELSE Y(y)
  IN [r |-> i, p |-> p, l |-> l, vec |-> v, prec |-> pr, api |-> api, must |-> Cids(s, M), may |-> Cids(s, L)]
Target(i) == LET s == Contents(i) IN IF s = <<>> \/ RandomElement(1..4) = 1 THEN <<RandPart(0), RandLayer(0)>> ELSE Pick({<<s[k].part, s[k].layer>> : k \in {RandomElement(DOMAIN s)}})
\* api 0, 1: the scalar or vector calls; 2: readLayers; 3: proxies
RandQ(i) == Pick({QueryOf(i, IF q[2] = "*" THEN "*" ELSE q[1][1], IF q[2] = "**" THEN "*" ELSE q[1][2], q[3], q[4], q[5]) :
   q \in {<<Target(i), RandomElement({"n", "n", "*"}), RandomElement(BOOLEAN), RandomElement(1..3), RandomElement(0..3)>>}})
AllQ(i) == Pick({QueryOf(i, "*", "*", q[1], q[2], q[3]) : q \in {<<RandomElement(BOOLEAN), RandomElement(1..3), RandomElement(0..3)>>}})
Ask == \E qs \in {[k \in 1..8 |-> IF k = 8 THEN AllQ(RandomElement(1..2)) ELSE RandQ(RandomElement(1..2))]} : UNCHANGED <<disk, ws, rs, nid>> /\ Rec([n |-> "Ask", q |-> qs])
\* ---- the rest of the world ------------------------------------------------------------------------
Junk == IF Free = {} THEN Nop ELSE \E p \in R(Free), s \in R(1..5) : disk' = [disk EXCEPT ![p] = [kind |-> "junk", sort |-> s]] /\ UNCHANGED <<ws, rs, nid>> /\ Rec([n |-> "Junk", path |-> p, sort |-> s])
Remove == IF Free = {} THEN Nop ELSE \E p \in R(Free) : disk' = [disk EXCEPT ![p] = Absent] /\ UNCHANGED <<ws, rs, nid>> /\ Rec([n |-> "Remove", path |-> p])
Kinds == IF Focus = "layers" THEN <<"Create", "Write", "Write", "Write", "Write", "Write", "Write", "CloseW", "Meta", "Open", "Open", "Ask", "Ask", "Ask", "Ask">> ELSE <<"Create", "Create", "Create", "Create", "Write", "Write", "Write", "Write", "Write", "Meta", "CloseW", "CloseW", "CloseW", "Open", "Open", "Open", "Open", "CloseR", "Ask", "Ask", "Ask", "Junk", "Remove", "CreateNowhere">>
Step == \E kd \in {Kinds[RandomElement(DOMAIN Kinds)]} :
  (CASE kd = "Write" -> IF \E i \in 1..2 : ws[i].open THEN Write ELSE IF RandomElement(1..6) = 1 THEN Write ELSE Create
      [] kd = "Create" -> Create [] kd = "CreateNowhere" -> CreateNowhere [] kd = "Meta" -> Meta [] kd = "CloseW" -> CloseW [] kd = "Open" -> Open [] kd = "CloseR" -> CloseR [] kd = "Ask" -> (IF \E i \in 1..2 : rs[i].open THEN Ask ELSE Open) [] kd = "Junk" -> Junk [] kd = "Remove" -> Remove)
Init == disk = [p \in Paths |-> Absent] /\ ws = [i \in 1..2 |-> [open |-> FALSE, path |-> 1, made |-> FALSE]] /\ rs = [i \in 1..2 |-> [open |-> FALSE, path |-> 1, failed |-> FALSE]] /\ nid = 1 /\ hist = <<>>
Next == Len(hist) < Depth /\ Step
GSpec == Init /\ [][Next]_vars
\* the files always have the organisation the algorithm of FileStore keeps, and it is faithful
RECURSIVE PlaceAll(_, _, _)
PlaceAll(s, k, f) == IF k > Len(s) THEN f ELSE PlaceAll(s, k + 1, Place(f, s[k]))
Emit == Len(hist) < Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
