------------------------------ MODULE Mapping -------------------------------
(* Spatial mappings: matrix and frustum mappings with time samples, over extents. Matrices have integer entries, so
   positions on the quarter lattice of local space have exact rational images. *)
EXTENDS Curve
CONSTANTS Objs
VARIABLES o                      \* object -> [kind, s (samples), dflt (frustum without own samples), z, ext]
Rows(m, x, y, z, w) == [k \in 1..Len(m[1]) |-> x * m[1][k] + y * m[2][k] + z * m[3][k] + w * m[4][k]]
\* the default frustum is not evaluated here
Default == [c |-> <<>>, n |-> 0, f |-> 0, a |-> 0, b |-> 0]
Fresh(kd, ext) == [kind |-> kd, s |-> IF kd = "frustum" THEN <<[t |-> 0, v |-> Default]>> ELSE <<>>, dflt |-> (kd = "frustum"), z |-> 0, ext |-> ext]
\* one more sample; a frustum's default sample goes away with the first own one
WithSample(x, t, v) == [x EXCEPT !.s = Insert(IF x.dflt THEN <<>> ELSE x.s, t, v), !.dflt = FALSE]
Single(x, v) == [x EXCEPT !.s = <<[t |-> 0, v |-> v]>>, !.dflt = FALSE]
Cleared(x) == [x EXCEPT !.s = Fresh(x.kind, x.ext).s, !.dflt = Fresh(x.kind, x.ext).dflt]
New(a, kd, ext) == o' = [o EXCEPT ![a] = Fresh(kd, ext)]
AddSample(a, t, v) == o' = [o EXCEPT ![a] = WithSample(@, t, v)]
\* the call without a time: a matrix mapping starts over, a frustum mapping gets a sample at time 0
SetOnly(a, v) == o' = [o EXCEPT ![a] = IF @.kind = "matrix" THEN Single(@, v) ELSE WithSample(@, 0, v)]
Clear(a) == o' = [o EXCEPT ![a] = Cleared(@)]
SetZ(a, z) == o' = [o EXCEPT ![a].z = z]
SetExt(a, e) == o' = [o EXCEPT ![a].ext = e]
Clone(a, b) == o' = [o EXCEPT ![b] = o[a]]
\* a file keeps all samples; a default frustum comes back with its default as an own sample
RoundTrip(a) == o' = [o EXCEPT ![a] = [@ EXCEPT !.dflt = FALSE]]
Same(x, y) == x.kind = y.kind /\ (x.kind = "null" \/ (x.s = y.s /\ (x.kind = "frustum" => x.z = y.z)))
Known(x) == \A i \in DOMAIN x.s : x.s[i].v.n # 0
\* ---- where positions go. q: position in quarters of local space, t: time
Identity == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<0, 0, 0>>>>
MatrixWorld(x, q, t) == LET F(m) == Rows(m, q[1], q[2], q[3], 4)
                            b == IF x.s = <<>> THEN [num |-> F(Identity), den |-> 1] ELSE Blend(x.s, t, F) IN
                        [num |-> b.num, den |-> 4 * b.den]
\* homogeneous camera space position of the screen position of q at one sample: all integers
Cam4(v, q) == LET sx == 2 * q[1] - 4 sy == 2 * q[2] - 4 IN <<v.a * v.n * v.f * sx, v.b * v.n * v.f * sy, -(4 * v.n * v.f), 4 * v.f + (v.n - v.f) * q[3]>>
Hom(v, q) == LET h == Cam4(v, q) IN [k \in 1..4 |-> IF k = 4 THEN h[4] ELSE h[1] * v.c[1][k] + h[2] * v.c[2][k] + h[3] * v.c[3][k] + h[4] * v.c[4][k]]
PerspWorld(x, q, t) == LET F(v) == Hom(v, q) b == Blend(x.s, t, F) IN [num |-> <<b.num[1], b.num[2], b.num[3]>>, den |-> b.num[4]]
\* uniform slices: depth is linear between the near and far planes
UniF(v, q) == LET d == v.n * (4 - q[3]) + v.f * q[3] sx == 2 * q[1] - 4 sy == 2 * q[2] - 4 IN   \* depth in quarters
              [k \in 1..3 |-> v.a * sx * d * v.c[1][k] + v.b * sy * d * v.c[2][k] - 4 * d * v.c[3][k] + 16 * v.c[4][k]]
UniWorld(x, q, t) == LET F(v) == UniF(v, q) b == Blend(x.s, t, F) IN [num |-> b.num, den |-> 16 * b.den]
SameLens(x) == \A i \in DOMAIN x.s : x.s[i].v.n = x.s[1].v.n /\ x.s[i].v.f = x.s[1].v.f /\ x.s[i].v.a = x.s[1].v.a /\ x.s[i].v.b = x.s[1].v.b
\* uniform slices are specified at and beyond the samples, and in between when only the camera moves
Specified(x, t) == x.kind # "frustum" \/ (Known(x) /\ (x.z = 0 \/ SameLens(x) \/ t <= x.s[1].t \/ t >= x.s[Len(x.s)].t \/ At(x.s, t) # {}))
World(x, q, t) == IF x.kind = "null" THEN [num |-> q, den |-> 4] ELSE IF x.kind = "matrix" THEN MatrixWorld(x, q, t) ELSE IF x.z = 0 THEN PerspWorld(x, q, t) ELSE UniWorld(x, q, t)
Init == o = [a \in Objs |-> Fresh("matrix", <<<<0, 0, 0>>, <<3, 3, 3>>>>)]
Ordered == \A a \in Objs : \A i \in 1..(Len(o[a].s)-1) : o[a].s[i].t < o[a].s[i+1].t
=============================================================================
