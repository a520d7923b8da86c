------------------------------ MODULE Metadata ------------------------------
(* Typed metadata of fields and files. Each object maps (type, name) to a value; a file keeps what its writer held. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objs, Types, Names, Vals
VARIABLES m,                     \* object -> type -> (name -> value)
          g                      \* metadata of the file being prepared: type -> (name -> value)
None == [t \in Types |-> <<>>]
Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Init == m = [o \in Objs |-> None] /\ g = None
Set(o, t, n, v) == m' = [m EXCEPT ![o][t] = Put(@, n, v)] /\ UNCHANGED g
SetFile(t, n, v) == g' = [g EXCEPT ![t] = Put(@, n, v)] /\ UNCHANGED m
Copy(a, b) == m' = [m EXCEPT ![b] = m[a]] /\ UNCHANGED g
\* writing the objects and the file metadata and reading them back gives the same entries: nothing changes
Store == UNCHANGED <<m, g>>
Get(o, t, n, d) == IF n \in DOMAIN m[o][t] THEN m[o][t][n] ELSE d
\* names used for more than one type
Clash(x) == \E s \in Types, t \in Types : s # t /\ DOMAIN x[s] \cap DOMAIN x[t] # {}
---------------------------------------------------------------------------
\* a change affects one entry of one object (copies excepted)
Local == [][(\E o \in Objs, t \in Types, n \in Names, v \in Vals : Set(o, t, n, v)) =>
            \E o \in Objs, t \in Types, n \in Names : \A p \in Objs, u \in Types, k \in Names, d \in Vals :
               (<<p, u, k>> # <<o, t, n>>) => (IF k \in DOMAIN m[p][u] THEN m[p][u][k] ELSE d) = (IF k \in DOMAIN m'[p][u] THEN m'[p][u][k] ELSE d)]_<<m, g>>
Shape == \A o \in Objs, t \in Types : DOMAIN m[o][t] \subseteq Names /\ \A n \in DOMAIN m[o][t] : m[o][t][n] \in Vals
DefaultUnset == \A o \in Objs, t \in Types, n \in Names, d \in Vals : n \notin DOMAIN m[o][t] => Get(o, t, n, d) = d
=============================================================================
