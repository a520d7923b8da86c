--------------------------- MODULE BlockCacheTrace --------------------------
(* Recorded executions of the real cache, one event per critical section (or per value returned to a reader),
   checked to be behaviours of BlockCache. Events are arrays of integers; event 1 starts a new execution.
   PropId selects which property's constraints a recorded event must satisfy (the state is tracked in any case):
     C01 the values readers get;  C02 pin counts, eviction, residency of held blocks;
     C03 accounting, limit and statistics;  C05 all of these (used with life-cycle histories). *)
EXTENDS BlockCache, CacheContent, Json, IOUtils, Functions
CONSTANT PropId
Log == ndJsonDeserialize("trace.ndjson")
Hdr == ndJsonDeserialize("headers.ndjson")     \* scenario headers: [res, files |-> <<[order]>>]
VARIABLES l,        \* next event
          fld,      \* field -> [ref (0 = in memory), order, val: voxel -> value, stored: block -> allocated?]
          hd,       \* scenario header number
          win,      \* thread -> [slack, idle]: since its last pin, the most room there was, and the resident blocks
                    \*   that were idle throughout
          loads     \* ref -> block -> times loaded
tvars == <<ref, mem, budget, l, fld, hd, win, loads>>
E == Log[l]
On(S) == PropId \in S
Values == On({"C01", "C05"})
Pins == On({"C02", "C05"})
Memory == On({"C03", "C05"})
Kind(k) == l <= Len(Log) /\ E[1] = k /\ l' = l + 1
None == [x \in {} |-> 0]
TInit == Init /\ l = 1 /\ fld = None /\ hd = 0 /\ win = None /\ loads = <<>>
Max(a, b) == IF a > b THEN a ELSE b
Slack == IF budget' < 0 THEN 1000000000 ELSE budget' - mem'
\* bookkeeping of room per thread, evaluated in the state after the event (C03)
Upd(w, id) == [slack |-> Max(w.slack, Slack), idle |-> w.idle \cap id]
Watch == LET id == Idle' IN win' = TLCEval([t \in DOMAIN win |-> Upd(win[t], id)])
WatchInc(t) == LET id == Idle' IN win' = TLCEval([x \in DOMAIN win \cup {t} |-> IF x = t THEN [slack |-> Slack, idle |-> id] ELSE Upd(win[x], id)])
\* a thread may load a block of bs bytes if, since it pinned it, the limit left room or every resident block was in use
HasRoom(t, bs) == t \in DOMAIN win => (win[t].slack >= bs \/ win[t].idle = {})
Same == UNCHANGED <<fld, hd, loads>>
Keep == UNCHANGED <<ref, mem, budget>>
Known(r, b) == ref[r].live /\ b \in DOMAIN ref[r].cnt
\* ---- cache events
\* [1, _, header, budget]
TReset == /\ Kind(1) /\ ref' = <<>> /\ mem' = 0 /\ budget' = E[4] /\ hd' = E[3] /\ fld' = None /\ win' = None /\ loads' = <<>>
\* [2, tid, ref, nblocks, bsize, field]  a field got a (new) record in the cache
TNewRef == /\ Kind(2) /\ E[3] = Len(ref) + 1 /\ E[6] \in DOMAIN fld /\ NewRef(E[4], E[5])
           /\ fld' = TLCEval([fld EXCEPT ![E[6]].ref = E[3]])
           /\ loads' = Append(loads, TLCEval([b \in 0..(E[4]-1) |-> 0])) /\ UNCHANGED hd /\ Watch
\* [3, tid, ref, block, count]
TInc == /\ Kind(3) /\ Same
        /\ IF Known(E[3], E[4]) THEN Inc(E[3], E[4]) /\ (Pins => ref'[E[3]].cnt[E[4]] = E[5]) ELSE ~Pins /\ Keep
        /\ WatchInc(E[2])
TDec == /\ Kind(4) /\ Same
        /\ IF Known(E[3], E[4]) /\ ref[E[3]].cnt[E[4]] > 0 THEN Dec(E[3], E[4]) /\ (Pins => ref'[E[3]].cnt[E[4]] = E[5]) ELSE ~Pins /\ Keep
        /\ Watch
\* [5, tid, ref, block, mem, list length]
Acc == Memory => mem' = E[5] /\ ResidentCount' = E[6] /\ Accounted'
TLoad == /\ Kind(5) /\ UNCHANGED <<fld, hd>>
         /\ IF Known(E[3], E[4]) /\ E[4] \notin ref[E[3]].loaded
            THEN /\ Load(E[3], E[4]) /\ Acc /\ (Memory => HasRoom(E[2], ref[E[3]].bsize))
                 /\ loads' = [loads EXCEPT ![E[3]][E[4]] = @ + 1]
            ELSE ~Memory /\ Keep /\ UNCHANGED loads
         /\ Watch
\* an eviction of a block in use breaks C02, of one not resident C03
EvictLike(k) ==
   /\ Kind(k)
   /\ Same
   /\ IF Known(E[3], E[4]) /\ E[4] \in ref[E[3]].loaded
      THEN IF ref[E[3]].cnt[E[4]] = 0 THEN Evict(E[3], E[4]) /\ Acc
           ELSE ~Pins /\ ref' = [ref EXCEPT ![E[3]].loaded = @ \ {E[4]}] /\ mem' = mem - ref[E[3]].bsize /\ UNCHANGED budget /\ Acc
      ELSE ~Memory /\ Keep
   /\ Watch
TEvict == EvictLike(6)
TFlush == EvictLike(8)
\* [7, tid, ref, mem, list length]
TRemove == /\ Kind(7) /\ UNCHANGED hd
           /\ IF ref[E[3]].live
              THEN /\ Remove(E[3]) /\ (Memory => mem' = E[4] /\ ResidentCount' = E[5] /\ Accounted')
                   /\ loads' = [loads EXCEPT ![E[3]] = <<>>]
                   /\ fld' = TLCEval([f \in DOMAIN fld |-> IF fld[f].ref = E[3] THEN [fld[f] EXCEPT !.ref = 0] ELSE fld[f]])
              ELSE Keep /\ UNCHANGED <<loads, fld>>
           /\ Watch
\* ---- readers
\* [9, tid, field, voxel, value, held]: a reader was given value; held: through a position it still holds
VBlock(f, n) == BlockOf(n, Hdr[hd].res, fld[f].order) - 1
TRead == /\ Kind(9) /\ UNCHANGED <<ref, mem, budget, win>> /\ Same
         /\ Values => E[4] \in DOMAIN fld[E[3]].val /\ fld[E[3]].val[E[4]] = E[5]
         /\ (Pins /\ E[6] = 1 /\ fld[E[3]].ref # 0 /\ E[4] \in DOMAIN fld[E[3]].val /\ fld[E[3]].stored[VBlock(E[3], E[4]) + 1]) =>
              LET b == VBlock(E[3], E[4]) r == fld[E[3]].ref IN b \in ref[r].loaded /\ ref[r].cnt[b] > 0
NVox == Prod(Hdr[hd].res)
Const(v) == TLCEval([n \in 1..NVox |-> v])
BlocksAre(o, B(_)) == TLCEval([b \in 1..NBlocks(Hdr[hd].res, o) |-> B(b-1)])
Opened(file) == LET o == Hdr[hd].files[file].order al(b) == Alloc(file, b) IN
   [ref |-> 0, order |-> o, val |-> TLCEval([n \in 1..NVox |-> FileVal(file, Hdr[hd].res, o, n)]), stored |-> BlocksAre(o, al)]
Def(f, d) == fld' = TLCEval([x \in DOMAIN fld \cup {f} |-> IF x = f THEN d ELSE fld[x]])
Rest == UNCHANGED <<ref, mem, budget, win, hd, loads>>
\* ---- life cycle
\* [10, tid, field, file] opened;  [11, tid, field, field2] now a copy of field2 (contents and blocks)
TOpen == Kind(10) /\ Def(E[3], Opened(E[4])) /\ Rest
TCopy == Kind(11) /\ Def(E[3], [fld[E[4]] EXCEPT !.ref = 0]) /\ Rest
\* [12, tid, field, value, order (-1: unchanged)] all voxels value, in memory
Yes(b) == TRUE
No(b) == FALSE
TFill == /\ Kind(12) /\ Rest
         /\ LET o == IF E[5] < 0 THEN fld[E[3]].order ELSE E[5] IN
            Def(E[3], [ref |-> 0, order |-> o, val |-> Const(E[4]), stored |-> BlocksAre(o, No)])
\* [13, tid, field, voxel, value]
TWrite == /\ Kind(13) /\ Rest
          /\ fld' = TLCEval([fld EXCEPT ![E[3]].val[E[4]] = E[5], ![E[3]].stored[VBlock(E[3], E[4]) + 1] = TRUE])
\* [19, tid, field, field2] values of field2, all blocks of its own
TCopyFrom == Kind(19) /\ Def(E[3], [fld[E[3]] EXCEPT !.ref = 0, !.val = fld[E[4]].val, !.stored = BlocksAre(fld[E[3]].order, Yes)]) /\ Rest
\* [14, tid, field] gone: the cache knows nothing of it any more
TClose == /\ Kind(14) /\ E[3] \in DOMAIN fld /\ (On({"C05"}) => fld[E[3]].ref = 0)
          /\ fld' = TLCEval([x \in DOMAIN fld \ {E[3]} |-> fld[x]]) /\ Rest
\* [15, tid, bytes] limit changed
TMax == Kind(15) /\ SetBudget(E[3]) /\ Watch /\ Same
\* [16] nobody is using anything
TQuiet == Kind(16) /\ (Pins => NoUse) /\ (Memory => Accounted) /\ UNCHANGED <<ref, mem, budget, win>> /\ Same
\* [17, tid, loads, resident, ever loaded, fraction, loads per block, efficiency (x 10000)] as reported by the cache
Plus(x, y) == x + y
RefLoads == [i \in DOMAIN loads |-> FoldFunction(Plus, 0, loads[i])]
LoadSum == FoldFunction(Plus, 0, RefLoads)
Ever == Cardinality(UNION {{<<r, b>> : b \in {x \in DOMAIN loads[r] : loads[r][x] > 0 \/ x \in ref[r].loaded}} : r \in DOMAIN loads})
Ratio(v, a, b) == LET c == Max(b, 1) IN Abs(v * c - 10000 * a) <= c
TStats == /\ Kind(17) /\ UNCHANGED <<ref, mem, budget, win>> /\ Same
          /\ Memory => /\ E[3] = LoadSum /\ E[4] = ResidentCount /\ E[5] = Ever
                       /\ Ratio(E[6], E[4], E[5]) /\ Ratio(E[7], E[3], E[5]) /\ Ratio(E[8], E[5], E[3])
\* [18, tid] load counts forgotten
TForget == Kind(18) /\ loads' = TLCEval([r \in DOMAIN loads |-> [b \in DOMAIN loads[r] |-> 0]]) /\ UNCHANGED <<ref, mem, budget, win, fld, hd>>
TNext == TReset \/ TNewRef \/ TInc \/ TDec \/ TLoad \/ TEvict \/ TRemove \/ TFlush \/ TRead \/ TOpen \/ TCopy \/ TFill \/ TWrite
         \/ TCopyFrom \/ TClose \/ TMax \/ TQuiet \/ TStats \/ TForget
TSpec == TInit /\ [][TNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>)
=============================================================================
