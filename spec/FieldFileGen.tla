---------------------------- MODULE FieldFileGen ----------------------------
\* a field is made, changed, written, read back (asking for every precision), the copy that was read takes its place, and so on
EXTENDS FieldFile, Json
CONSTANTS Depth
VARIABLES f, disk, hist
vars == <<f, disk, hist>>
R(S) == {RandomElement(S)}
Pick(S) == CHOOSE x \in S : TRUE
V(n) == LET k == RandomElement(1..12) IN IF k = 1 THEN RandomElement(1001..1007) ELSE IF k = 2 THEN RandomElement(-300..300) ELSE RandomElement(-9..9)
E(n) == RandomElement({0, 0, 7, V(1)})
Side(n) == RandomElement({1, 1, 2, 2, 3, 4, 5, 6, 9})
Min(n) == [i \in 1..3 |-> RandomElement({0, 0, RandomElement(-20..20)})]
ResOf(n) == LET C(s) == IF Prod(s) > 130 THEN <<s[1], 1, Min2(s[3], 9)>> ELSE s IN Pick({C(s) : s \in {RandomElement({[i \in 1..3 |-> Side(i)], <<RandomElement(1..40), 1, RandomElement(1..3)>>, <<1, RandomElement(1..3), RandomElement(1..40)>>})}})
\* k = 0: nothing allocated; 1: everything; 2: mixed; 3: mixed with all empty values equal
SparseWith(mn, r, o, al, ev) == [min |-> mn, res |-> r, order |-> o, alloc |-> al, ev |-> ev, val |-> TLCEval([i \in 1..Prod(r) |-> LET b == BlockOf(i, r, o) IN IF al[b] THEN V(i) ELSE ev[b]])]
SparseLevel(mn, r, o, k, e0) == LET nb == Prod(BRes(r, o)) IN
  Pick({SparseWith(mn, r, o, q[1], q[2]) : q \in {<<TLCEval([b \in 1..nb |-> CASE k = 0 -> FALSE [] k = 1 -> TRUE [] OTHER -> RandomElement(BOOLEAN)]), TLCEval([b \in 1..nb |-> IF k = 3 THEN e0 ELSE E(b)])>>}})
Level(str, mn, r) == IF Base(str) # "sparse" THEN [min |-> mn, res |-> r, val |-> TLCEval([i \in 1..Count(str, r) |-> V(i)])]
  ELSE Pick({SparseLevel(mn, r, q[1], q[2], q[3]) : q \in {<<RandomElement(1..4), RandomElement({0, 1, 2, 4, 5, 3}), E(0)>>}})
Half(r) == [i \in 1..3 |-> CeilDiv(r[i], 2)]
RECURSIVE MoreLevels(_, _, _)
MoreLevels(str, ls, n) == LET l == ls[Len(ls)] mn == [i \in 1..3 |-> l.min[i] \div 2] IN IF n = 0 \/ Half(l.res) = l.res THEN ls ELSE MoreLevels(str, Append(ls, Pick({x \in {Level(str, mn, Half(l.res))} : TRUE})), n - 1)
Mip(str) == str \in {"mipdense", "mipsparse"}
FieldWith(str, mn, r, lo, hi, nl, base) ==
  [str |-> str, prec |-> RandomElement(1..3), comps |-> IF str = "mac" THEN 3 ELSE RandomElement({1, 3}),
   ext |-> IF Mip(str) THEN <<mn, Sub3(Add3(mn, r), <<1, 1, 1>>)>> ELSE <<Sub3(mn, lo), [i \in 1..3 |-> mn[i] + r[i] - 1 + hi[i]]>>,
   levels |-> IF Mip(str) THEN MoreLevels(str, <<base>>, nl) ELSE <<base>>]
NewField(str) == Pick(UNION {{FieldWith(str, q[1], q[2], q[3], q[4], q[5], b) : b \in {Level(str, q[1], q[2])}} :
  q \in {<<Min(0), ResOf(0), [i \in 1..3 |-> RandomElement({0, 0, 3, -1})], [i \in 1..3 |-> RandomElement({0, 0, 4, -1})], RandomElement(0..3)>>}})
\* extents keep at least one voxel
Fix(x) == [x EXCEPT !.ext = <<@[1], [i \in 1..3 |-> Max2(@[1][i], @[2][i])]>>]
Strs == <<"dense", "sparse", "sparse", "sparse", "mac", "mipdense", "mipsparse">>
Rec(r) == hist' = Append(hist, r @@ [f |-> f'])
New == \E st \in {Strs[RandomElement(DOMAIN Strs)]} : \E x \in {NewField(st)}, m \in R(0..7), k \in R(0..5), s \in R(0..9) : f' = Fix(x) /\ UNCHANGED disk /\ Rec([n |-> "New", map |-> m, meta |-> k, name |-> s])
\* write one value
Edit == IF f.str \in {"mipdense", "mipsparse"} THEN UNCHANGED <<f, disk>> /\ Rec([n |-> "Nop"]) ELSE
  \E i \in R(DOMAIN f.levels[1].val), v \in {V(Len(hist))} :
    /\ f' = [f EXCEPT !.levels[1] = IF f.str # "sparse" THEN [@ EXCEPT !.val[i] = v] ELSE [@ EXCEPT !.val[i] = v, !.alloc[BlockOf(i, @.res, @.order)] = TRUE]]
    /\ UNCHANGED disk /\ Rec([n |-> "Edit", i |-> i, v |-> v])
Trip == \E fmt \in R({"ogawa", "hdf5"}), th \in R({1, 1, 2, 4, 8}), managed \in R({FALSE, FALSE, TRUE}), lim \in R(0..2), adopt \in R({TRUE, TRUE, FALSE}), same \in R(BOOLEAN), first \in R(1..6) :
   IF ~Holds(fmt, f) THEN UNCHANGED <<f, disk>> /\ Rec([n |-> "Refused", fmt |-> fmt, th |-> th])
   ELSE LET s == Encode(f) IN
     /\ disk' = s
     /\ f' = Request(s, f.prec, f.comps)[1]
     /\ Rec([n |-> "Trip", fmt |-> fmt, th |-> th, managed |-> managed, lim |-> lim, adopt |-> adopt, same |-> same, first |-> first,
             serve |-> [p \in 1..3 |-> <<Len(Request(s, p, 1)), Len(Request(s, p, 3))>>]])
Kinds == <<"New", "Edit", "Edit", "Trip", "Trip", "Trip", "Trip">>
Step == \E kd \in {Kinds[RandomElement(DOMAIN Kinds)]} : IF hist = <<>> \/ kd = "New" THEN New ELSE IF kd = "Edit" THEN Edit ELSE Trip
Init == f = [str |-> "none"] /\ disk = <<>> /\ hist = <<>>
Next == Len(hist) < Depth /\ Step
GSpec == Init /\ [][Next]_vars
Emit == Len(hist) < Depth \/ PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
