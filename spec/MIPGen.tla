------------------------------- MODULE MIPGen --------------------------------
(* Programs over multi-resolution fields read on demand, with what each operation has to report.
   A field from source s has levels whose voxel values, names and windows are those written, and whose mapping follows
   the mapping the object has now; copies have the source's levels, whatever either has loaded. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxTh, Len1, Len2, Kinds, Fmts, Num
VARIABLES k, n, S, st, prog, done
vars == <<k, n, S, st, prog, done>>
R(X, d) == RandomElement(X)
MaxLevels == 3
Pow(l) == 2 ^ l
\* window of level l along one axis for r voxels at offset o: the coarse voxels that cover any of them
Res(r, o, l) == ((o + r - 1) \div Pow(l)) - (o \div Pow(l)) + 1
ResV(src, l) == [a \in 1..3 |-> Res(src.res[a], src.off[a], l)]
Shrinks(src, l) == LET p == ResV(src, l - 1) q == ResV(src, l) IN (\A a \in 1..3 : q[a] <= p[a]) /\ \E a \in 1..3 : q[a] < p[a]
Depth(src) == IF ~Shrinks(src, 1) THEN 1 ELSE IF ~Shrinks(src, 2) THEN 2 ELSE IF ~Shrinks(src, 3) THEN 3 ELSE MaxLevels + 1
Vec(X, d) == TLCEval([a \in 1..3 |-> R(X, d + a)])
Source(d) == [res |-> Vec(3..7, d), off |-> Vec(-3..3, d), min |-> Vec({0, 0, -2, 3}, d), map |-> R(1..4, d), c |-> R(0..40, d), nl |-> R(1..4, d), lmin |-> Vec({0, 0, 0, 1}, d)]
WithDepth(s) == [s EXCEPT !.nl = IF @ > Depth(s) THEN Depth(s) ELSE @]
\* voxel u (from the window's corner) of level l
Val(s, l, u) == 1 + ((s.c + 5 * l + u[1] + 3 * u[2] + 7 * u[3]) % 61)
WMin(s, l) == IF l = 0 THEN s.min ELSE s.lmin
\* displacement of the corner of level l from the corner of the base, in base voxels
Shift(s, l) == TLCEval([a \in 1..3 |-> (s.off[a] \div Pow(l)) * Pow(l) - s.off[a]])
\* ---- objects: slots 1,2 shared (sources 1,2), 3..5 private to a thread; src 0 = nothing, -1 = an empty field
Shared == {1, 2}
Priv == 3..5
Slots == Shared \cup Priv
\* must / may: levels surely loaded, possibly loaded (shared objects are touched by others meanwhile)
None == [src |-> 0, map |-> 0, must |-> {}, may |-> {}]
Levels(src) == 0..(S.src[src].nl - 1)
InitSt(th, ss) == [t \in 1..th |-> [s \in Slots |-> IF s \in Shared THEN [src |-> s, map |-> ss[s].map, must |-> {}, may |-> IF th = 1 THEN {} ELSE 0..(ss[s].nl - 1)] ELSE None]]
Has(t, s) == st[t][s].src > 0
Ops(t) == [i \in 1..16 |-> <<1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10>>[i]]
Touch(t, s, l) == [st EXCEPT ![t][s].must = @ \cup {l}, ![t][s].may = @ \cup {l}]
Base(kd, s, l) == [op |-> kd, s |-> s, l |-> l, d |-> 0, u |-> <<0, 0, 0>>, e |-> <<>>, v |-> <<0, 0, 0>>]
Do(t, op) ==
  LET s == op.s o == st[t][s] l == op.l IN
  CASE op.op \in {1, 2} -> Touch(t, s, l)
    [] op.op = 3 -> [st EXCEPT ![t][op.d] = o]
    [] op.op = 4 -> [st EXCEPT ![t][s].map = op.e[1]]
    [] op.op = 7 -> [st EXCEPT ![t][s] = None]
    [] op.op = 10 -> [st EXCEPT ![t][s] = [src |-> -1, map |-> op.e[1], must |-> {}, may |-> {}]]
    [] op.op = 9 -> st
    [] OTHER -> st
\* a random operation of thread t (d makes the draws differ)
Legal(t, d) == TLCEval({s \in Slots : Has(t, s)})
Rand(t, d) ==
  LET kd0 == Ops(t)[R(1..16, d)] IN
  LET s == R(Legal(t, d), d + 1) IN
  LET any == R(TLCEval({x \in Slots : st[t][x].src # 0}), d) IN
  LET p == R(Priv, d + 2) IN
  LET o == st[t][s] IN LET src == S.src[o.src] IN LET l == R(0..(src.nl - 1), d) IN
  LET rv == TLCEval(ResV(src, l)) IN LET u == TLCEval([a \in 1..3 |-> R(0..(rv[a] - 1), d + a)]) IN
  LET kd == IF kd0 \in {8, 9} /\ S.th > 1 THEN 1 ELSE IF kd0 = 4 /\ s \in Shared THEN 2 ELSE kd0 IN
  LET b == Base(kd, s, l) IN
  CASE kd = 1 -> [b EXCEPT !.u = [a \in 1..3 |-> WMin(src, l)[a] + u[a]], !.e = <<Val(src, l, u)>>, !.d = R(1..5, d)]
    \* level voxel u corresponds to this corner position in the base's window
    [] kd = 2 -> [b EXCEPT !.u = [a \in 1..3 |-> WMin(src, l)[a] + u[a]], !.v = TLCEval([a \in 1..3 |-> Shift(src, l)[a] + Pow(l) * u[a]]), !.e = <<o.src, o.map>>, !.d = R(1..2, d)]
    [] kd = 3 -> [b EXCEPT !.s = any, !.l = 0, !.d = p, !.e = <<R(1..3, d)>>]
    [] kd = 4 -> [b EXCEPT !.e = <<R(1..4, d)>>]
    \* resolution, number of levels, offset and coordinates of a level
    [] kd = 5 -> [b EXCEPT !.u = rv, !.v = TLCEval([a \in 1..3 |-> u[a] - Shift(src, l)[a]]), !.e = <<src.nl, src.off[1], src.off[2], src.off[3], u[1], u[2], u[3], IF WMin(src, 0) = <<0, 0, 0>> /\ WMin(src, l) = <<0, 0, 0>> THEN 1 ELSE 0>>]
    [] kd = 6 -> [b EXCEPT !.e = <<IF l \in o.must THEN 1 ELSE IF l \in o.may THEN -1 ELSE 0>>]
    [] kd = 7 -> [b EXCEPT !.s = p]
    \* one thread: the number of levels loaded; a failing read of a level
    [] kd = 8 -> [b EXCEPT !.e = TLCEval([x \in 1..src.nl |-> IF x - 1 \in o.must THEN LET w == ResV(src, x - 1) IN w[1] * w[2] * w[3] ELSE 0])]
    [] kd = 9 -> [b EXCEPT !.e = <<IF l \in o.must THEN 0 ELSE 1>>]
    [] kd = 10 -> [b EXCEPT !.s = p, !.e = <<R(1..4, d)>>]
    [] OTHER -> b
Setup(th, d) == [th |-> th, fmt |-> R(Fmts, d), kind |-> R(Kinds, d), managed |-> R(0..2, d) = 0, src |-> <<TLCEval(WithDepth(TLCEval(Source(d)))), TLCEval(WithDepth(TLCEval(Source(d + 7))))>>]
Init == k = 0 /\ n = 0 /\ S = [th |-> 1] /\ st = <<>> /\ prog = <<>> /\ done = 0
Start == done = 0 /\ k < Num /\ k' = k + 1 /\ done' = 1 /\ \E th \in {IF MaxTh = 1 THEN 1 ELSE R(2..MaxTh, k)} : \E m \in {R(Len1..Len2, k)} : \E x \in {TLCEval(Setup(th, k))} :
         S' = x /\ st' = InitSt(th, x.src) /\ prog' = [t \in 1..th |-> <<>>] /\ n' = m * th
Step == /\ done = 1 /\ n > 0 /\ n' = n - 1 /\ UNCHANGED <<k, S>>
        /\ LET t == 1 + (n % S.th) IN \E op \in {TLCEval(Rand(t, n))} : prog' = [prog EXCEPT ![t] = Append(@, op)] /\ st' = TLCEval(Do(t, op))
        /\ done' = (IF n = 1 THEN 2 ELSE 1)
Again == done = 2 /\ UNCHANGED vars
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
Emit == done # 2 \/ PrintT(<<"BEH", ToJson([th |-> S.th, fmt |-> S.fmt, kind |-> S.kind, managed |-> S.managed, src |-> S.src, prog |-> prog, nl |-> [i \in 1..2 |-> [l \in 1..S.src[i].nl |-> [res |-> ResV(S.src[i], l - 1), min |-> WMin(S.src[i], l - 1)]]]])>>)
=============================================================================
