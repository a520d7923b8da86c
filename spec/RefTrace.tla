------------------------------ MODULE RefTrace -------------------------------
(* Recorded executions on shared references and the cache of fields. A reference counts as owned from the event that
   reports it acquired until the event that announces its release. PropId: R01 ownership, R02 the cache of fields. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT PropId
Log == ndJsonDeserialize("trace.ndjson")
VARIABLES l, own,   \* <<thread, slot>> -> object (0 = none); thread 0 = mailboxes
          alive,    \* objects not yet deleted
          obj,      \* object -> [key, ver, size, type] (key -1: not from a file)
          ver,      \* file -> current version
          cand,     \* key -> objects the cache may have for it
          get       \* thread -> [key, must, alone] of its look-up in progress
vars == <<l, own, alive, obj, ver, cand, get>>
E == Log[l]
R1 == PropId = "R01"
R2 == PropId = "R02"
Kind(k) == l <= Len(Log) /\ E[1] = k /\ l' = l + 1
None == [x \in {} |-> 0]
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Cut(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])
Owned(w, o) == \E x \in DOMAIN w : w[x] = o
KType(k) == k \div 6
KFile(k) == k % 2
KLayer(k) == (k \div 2) % 3
Has(k) == (KLayer(k) + ver[KFile(k)]) % 2 = KType(k)    \* the file's layer has that type
Init == l = 1 /\ own = None /\ alive = {} /\ obj = <<>> /\ ver = None /\ cand = None /\ get = None
TReset == Kind(1) /\ own' = None /\ alive' = {} /\ obj' = <<>> /\ ver' = None /\ cand' = None /\ get' = None
Keep == UNCHANGED <<obj, ver, cand>>
\* [2, thread, slot, object] acquired
TOwn == /\ Kind(2) /\ (R1 => E[4] = 0 \/ E[4] \in alive) /\ own' = Put(own, <<E[2], E[3]>>, E[4]) /\ UNCHANGED <<alive, get>> /\ Keep
\* after a release: a look-up need not find an object nobody owned for a while
Void(w) == TLCEval([t \in DOMAIN get |-> IF get[t].must # 0 /\ ~Owned(w, get[t].must) THEN [get[t] EXCEPT !.must = 0] ELSE get[t]])
\* [3, thread, slot] about to let go
TRelease == /\ Kind(3) /\ LET w == Cut(own, <<E[2], E[3]>>) IN own' = w /\ get' = Void(w)
            /\ UNCHANGED alive /\ Keep
\* [12, thread, slot] has let go
TReleased == Kind(12) /\ UNCHANGED <<own, alive, get>> /\ Keep
\* [4, object] deleted: only once, and only when nobody owns it
TDelete == /\ Kind(4) /\ (R1 => E[2] \in alive /\ ~Owned(own, E[2])) /\ alive' = alive \ {E[2]} /\ UNCHANGED <<own, get>> /\ Keep
\* [7, object, size, type] seen for the first time
TNew == /\ Kind(7) /\ E[2] = Len(obj) + 1 /\ obj' = Append(obj, [key |-> -1, ver |-> 0, size |-> E[3], type |-> E[4]]) /\ alive' = alive \cup {E[2]}
        /\ UNCHANGED <<own, get, ver, cand>>
\* [8, object, gone] weak observer
TWeak == /\ Kind(8) /\ (R1 => (E[3] = 1 => ~Owned(own, E[2])) /\ (E[3] = 0 => E[2] \in alive)) /\ UNCHANGED <<own, alive, get>> /\ Keep
\* [9] nothing is going on: what nobody owns is gone
TQuiet == /\ Kind(9) /\ (R1 => \A o \in alive : Owned(own, o)) /\ UNCHANGED <<own, alive, get>> /\ Keep
\* [10, file, version] written
TWrite == Kind(10) /\ ver' = Put(ver, E[2], E[3]) /\ UNCHANGED <<own, alive, obj, cand, get>>
\* [5, thread, key] look-up begins
Cand(k) == IF k \in DOMAIN cand THEN cand[k] ELSE {}
TGet == /\ Kind(5) /\ UNCHANGED <<own, alive>> /\ Keep
        /\ LET same == {t \in DOMAIN get : get[t].key = E[3]} IN
           LET c == Cand(E[3]) IN
           LET must == IF Cardinality(c) = 1 /\ Owned(own, CHOOSE o \in c : TRUE) /\ \A t \in same : get[t].must \in c THEN CHOOSE o \in c : TRUE ELSE 0 IN
           get' = TLCEval([t \in DOMAIN get \cup {E[2]} |-> IF t = E[2] THEN [key |-> E[3], must |-> must, alone |-> same = {}] ELSE IF t \in same THEN [get[t] EXCEPT !.alone = FALSE] ELSE get[t]])
\* [6, thread, key, slot, object, key its contents tell, version they tell] look-up returns
TGot == /\ Kind(6) /\ E[2] \in DOMAIN get /\ get[E[2]].key = E[3] /\ get' = Cut(get, E[2]) /\ UNCHANGED <<alive, ver>>
        /\ own' = Put(own, <<E[2], E[4]>>, E[5])
        /\ LET g == get[E[2]] IN
           IF E[5] <= 0 THEN (R2 => g.must = 0 /\ E[5] = 0 /\ ~Has(E[3])) /\ UNCHANGED <<obj, cand>>
           ELSE /\ (R2 => /\ E[5] \in alive
                          /\ g.must = 0 \/ g.must = E[5]
                          /\ E[6] = E[3]
                          /\ IF obj[E[5]].key = -1 THEN E[7] = ver[KFile(E[3])] /\ Has(E[3]) ELSE E[5] \in Cand(E[3]) /\ obj[E[5]].key = E[3] /\ E[7] = obj[E[5]].ver)
                /\ (R1 => E[5] \in alive)
                /\ obj' = TLCEval([obj EXCEPT ![E[5]].key = IF @ = -1 THEN E[3] ELSE @, ![E[5]].ver = IF obj[E[5]].key = -1 THEN E[7] ELSE @])
                /\ cand' = Put(cand, E[3], IF g.alone \/ g.must # 0 THEN {E[5]} ELSE Cand(E[3]) \cup {E[5]})
\* [11, bytes of scalar fields, bytes of half fields] as the caches report them (one thread)
RECURSIVE Total(_, _)
Total(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(S \ {x}, f)
Sizes(ty) == LET ks == {k \in DOMAIN cand : KType(k) = ty} IN Total(ks, [k \in ks |-> LET o == CHOOSE o \in cand[k] : TRUE IN IF o \in alive THEN obj[o].size ELSE 0])
TSize == /\ Kind(11) /\ (R2 => E[2] = Sizes(0) /\ E[3] = Sizes(1)) /\ UNCHANGED <<own, alive, get>> /\ Keep
Next == TReset \/ TOwn \/ TRelease \/ TReleased \/ TDelete \/ TNew \/ TWeak \/ TQuiet \/ TWrite \/ TGet \/ TGot \/ TSize
TSpec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>)
=============================================================================
